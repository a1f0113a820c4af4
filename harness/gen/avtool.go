package gen

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"joyverif/ref"
	"joyverif/vt"
)

// AvtoolBin is the command built from the working tree.
func AvtoolBin() string {
	p := os.Getenv("VT_AVTOOL")
	if p == "" {
		p = "/tmp/avtool-local"
	}
	if _, err := os.Stat(p); err != nil {
		vt.Infra("no avtool: %v", err)
	}
	return p
}

// Tail keeps the last bytes written to it.
type Tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *Tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = append([]byte{}, t.b[len(t.b)-32<<10:]...)
	}
	return len(p), nil
}

func (t *Tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	b := t.b
	if len(b) > 6000 {
		b = b[len(b)-6000:]
	}
	return string(b)
}

// Proc is a running avtool.
type Proc struct {
	Cmd  *exec.Cmd
	Addr string
	Out  Tail
	Done chan struct{}
	Err  error
}

// Dead tells why the process is no longer there ("" if it is).
func (p *Proc) Dead() string {
	select {
	case <-p.Done:
		return fmt.Sprintf("avtool ended (%v): %s", p.Err, p.Out.String())
	default:
		return ""
	}
}

func (p *Proc) Kill() {
	p.Cmd.Process.Kill()
	<-p.Done
}

// StartAvtool starts a command that ends with this process.
func StartAvtool(args ...string) *Proc {
	p := &Proc{Done: make(chan struct{})}
	started := make(chan error)
	go func() {
		runtime.LockOSThread() // the parent of the process is this thread
		p.Cmd = exec.Command(AvtoolBin(), args...)
		p.Cmd.Stdout, p.Cmd.Stderr = &p.Out, &p.Out
		p.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err := p.Cmd.Start()
		started <- err
		if err == nil {
			p.Err = p.Cmd.Wait()
		}
		close(p.Done)
	}()
	if err := <-started; err != nil {
		vt.Infra("start avtool: %v", err)
	}
	return p
}

// StartServer starts `avtool name address args...` and waits until it listens.
func StartServer(name string, args ...string) *Proc {
	dead := ""
	for try := 0; try < 8; try++ {
		l, err := net.Listen("tcp", ref.LocalIP()+":0")
		if err != nil {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		addr := l.Addr().String()
		l.Close()
		p := StartAvtool(append([]string{name, addr}, args...)...)
		p.Addr = addr
		for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			if x := p.Dead(); x != "" {
				dead = x
				break
			}
			if c, err := net.Dial("tcp", addr); err == nil {
				c.Close()
				return p
			}
		}
		if dead == "" {
			dead = "does not listen"
			p.Kill()
			break
		}
		p.Kill()
	}
	if dead == "" || strings.Contains(dead, "address already in use") {
		vt.Infra("avtool %s: %s", name, dead)
	}
	panic("avtool " + name + ": " + dead)
}
