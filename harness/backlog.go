package main

import (
	"fmt"
	"net"
	"syscall"
	"time"
)

// fullBacklog gives an address on which connection attempts hang: its accept queue is full.
func fullBacklog() (string, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		panic(err)
	}
	sa, _ := syscall.Getsockname(fd)
	addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	conns := []net.Conn{}
	for k := 0; k < 4; k++ {
		if c, err := net.DialTimeout("tcp", addr, 200*time.Millisecond); err == nil {
			conns = append(conns, c)
		}
	}
	return addr, func() {
		for _, c := range conns {
			c.Close()
		}
		syscall.Close(fd)
	}
}
