package ref

import (
	"net"
	"syscall"
	"time"
	"unsafe"
)

// Arrived waits until the other end's system has taken all that was written.
func Arrived(nc net.Conn, d time.Duration) bool {
	tc, ok := nc.(*net.TCPConn)
	if !ok {
		return false
	}
	rc, err := tc.SyscallConn()
	if err != nil {
		return false
	}
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		left := int32(-1)
		rc.Control(func(fd uintptr) {
			const siocoutq = 0x5411
			if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, siocoutq, uintptr(unsafe.Pointer(&left))); e != 0 {
				left = -1
			}
		})
		if left == 0 {
			return true
		} else if left < 0 {
			return false
		}
	}
	return false
}
