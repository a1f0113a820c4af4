package ref

import (
	"fmt"
	"net"
	"os"
	"sync"
)

var (
	localOnce sync.Once
	localIP   string
)

// LocalIP is a loopback address that other processes are unlikely to use, so
// that no port is taken between finding it free and listening on it, and nobody
// else connects to it.
func LocalIP() string {
	localOnce.Do(func() {
		pid := os.Getpid()
		localIP = fmt.Sprintf("127.%d.%d.%d", 16+pid>>15&127, pid>>7&255, 1+pid&127)
		l, err := net.Listen("tcp", localIP+":0")
		if err != nil {
			localIP = "127.0.0.1"
			return
		}
		l.Close()
	})
	return localIP
}
