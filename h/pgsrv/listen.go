package pgsrv

import (
	"fmt"
	"net"
	"os"
	"sync"
)

var ports struct {
	sync.Mutex
	next int
}

// Listen opens a listener on a free port that the system doesn't give to
// clients: those may stay blocked for a minute after a connection, and after
// many connections there are none left.
func Listen(host string) (l net.Listener, err error) {
	const first, count = 10000, 22000
	ports.Lock()
	defer ports.Unlock()
	if ports.next == 0 {
		ports.next = os.Getpid() * 701
	}
	for i := 0; i < count; i++ {
		ports.next++
		l, err = net.Listen("tcp", fmt.Sprintf("%s:%d", host, first+ports.next%count))
		if err == nil {
			return l, nil
		}
	}
	return net.Listen("tcp", host+":0")
}
