package world

import (
	"fmt"
	"net"
	"os"
	"sync"
)

var (
	portMu   sync.Mutex
	nextPort int
)

// FreePort gives an address to listen on which no other caller gets and which is not in the range
// that outgoing connections take their ports from.
func FreePort() (string, error) {
	portMu.Lock()
	defer portMu.Unlock()
	if nextPort == 0 {
		nextPort = os.Getpid() * 12361 % 20000 // far from those of processes started next to this one
	}
	for i := 0; i < 20000; i++ {
		nextPort = (nextPort + 1) % 20000
		addr := fmt.Sprintf("127.0.0.1:%d", 10000+nextPort)
		l, err := net.Listen("tcp", addr)
		if err != nil {
			continue
		}
		_ = l.Close()
		return addr, nil
	}
	return "", fmt.Errorf("no port is free")
}
