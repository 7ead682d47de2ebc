package main

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The simulated network: reliable byte streams between named hosts, with
// latency, segmentation, resets, refusals, partitions and stalls decided by the
// plan.

type linkMode int

const (
	linkUp     linkMode = iota
	linkRefuse          // connection attempts are refused
	linkHole            // packets vanish (partition)
)

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type netLink struct {
	mode    linkMode
	since   int64
	extraMS int64 // added delay per segment
	maxSeg  int   // segment size (0 = whole writes)
}

type simNet struct {
	mu        sync.Mutex
	listeners map[string]*simListener
	links     map[string]*netLink // by the server side host
	conns     []*simConn          // client ends
	nextConn  int
	window    int       // bytes in flight per direction
	dials     []dialLog // every attempt of ckube to connect
	latency   []int64
	seed      uint64
}

func newSimNet(seed uint64, latency []int64) *simNet {
	return &simNet{listeners: map[string]*simListener{}, links: map[string]*netLink{}, latency: latency, seed: seed, window: connWindow}
}

var simnet *simNet

func (n *simNet) lock()   { runtime.SimNoMap(1); n.mu.Lock() }
func (n *simNet) unlock() { n.mu.Unlock(); runtime.SimNoMap(-1) }

func (n *simNet) link(host string) *netLink {
	l := n.links[host]
	if l == nil {
		l = &netLink{}
		n.links[host] = l
	}
	return l
}

type simListener struct {
	host   string
	port   string
	ch     chan *simConn
	closed chan struct{}
	once   sync.Once
}

func (l *simListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}

func (l *simListener) Close() error {
	l.once.Do(func() {
		simnet.lock()
		if simnet.listeners[l.host+":"+l.port] == l {
			delete(simnet.listeners, l.host+":"+l.port)
		}
		simnet.unlock()
		close(l.closed)
	})
	return nil
}

func (l *simListener) Addr() net.Addr { return simAddr(l.host + ":" + l.port) }

func (n *simNet) listen(host, port string) (net.Listener, error) {
	n.lock()
	defer n.unlock()
	key := host + ":" + port
	if n.listeners[key] != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &simListener{host: host, port: port, ch: make(chan *simConn, 1024), closed: make(chan struct{})}
	n.listeners[key] = l
	return l, nil
}

// half carries bytes in one direction.
type half struct {
	q        []seg // in flight, in order
	inflight int
	buf      []byte // readable
	eof      bool
	lastAt   time.Time
}

type seg struct {
	at   time.Time
	data []byte
	fin  bool
	mark func() // called when the segment becomes readable
}

type connPair struct {
	mu       sync.Mutex
	cond     *sync.Cond
	id       int
	host     string // server side host
	dir      [2]half
	err      error // reset or timed out: both ends
	closed   [2]bool
	closedMS [2]int64
	rdl      [2]time.Time
	wdl      [2]time.Time
	rdlT     [2]*time.Timer
	wdlT     [2]*time.Timer
	nseg     int
	held     bool
	created  time.Time
	onReset  []func() // run when the connection is killed
}

// simConn is one end of a connection: end 0 dialled, end 1 accepted.
type simConn struct {
	p      *connPair
	end    int
	local  simAddr
	remote simAddr
	onMark func() func() // asked at every write: runs once its last byte is readable by the peer
}

const (
	connWindow  = 256 << 10
	holeKillMS  = 180000
	dialRetryMS = 1000
)

func (n *simNet) dial(ctx context.Context, from, address string, timeout time.Duration, deadline time.Time) (net.Conn, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if host == "" || host == "127.0.0.1" || host == "localhost" || host == "::1" {
		host = "ckube"
	}
	host = strings.TrimPrefix(host, otherHost)
	if timeout > 0 {
		d := time.Now().Add(timeout)
		if deadline.IsZero() || d.Before(deadline) {
			deadline = d
		}
	}
	if d, ok := ctx.Deadline(); ok && (deadline.IsZero() || d.Before(deadline)) {
		deadline = d
	}
	opErr := func(e error) error {
		return &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(address), Err: e}
	}
	wait := func(d time.Duration) error {
		if !deadline.IsZero() {
			if r := time.Until(deadline); r < d {
				d = r
			}
		}
		if d <= 0 {
			return opErr(os.ErrDeadlineExceeded)
		}
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			return opErr(mapCtxErr(ctx.Err()))
		}
		if !deadline.IsZero() && !time.Now().Before(deadline) {
			return opErr(os.ErrDeadlineExceeded)
		}
		return nil
	}
	retry := time.Duration(dialRetryMS) * time.Millisecond
	for {
		n.lock()
		l := n.link(host)
		mode := l.mode
		n.nextConn++
		id := n.nextConn
		if from == "ckube" {
			n.dials = append(n.dials, dialLog{host, nowMS()})
		}
		var ln *simListener
		n.unlock()
		if mode == linkHole {
			if err := wait(retry); err != nil {
				return nil, err
			}
			retry *= 2
			continue
		}
		if d := n.delay(id, 0); d > 0 {
			if err := wait(d); err != nil {
				return nil, err
			}
		} else if ctx.Err() != nil {
			return nil, opErr(mapCtxErr(ctx.Err()))
		}
		// the SYN arrives now: the server may have gone or come back meanwhile
		n.lock()
		mode = n.link(host).mode
		ln = n.listeners[host+":"+port]
		n.unlock()
		if mode == linkHole {
			continue
		}
		if mode == linkRefuse || ln == nil {
			return nil, opErr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
		}
		p := &connPair{id: id, host: host, created: time.Now()}
		p.cond = sync.NewCond(&p.mu)
		a := &simConn{p: p, end: 0, local: simAddr(from + ":" + itoa(20000+id)), remote: simAddr(host + ":" + port)}
		b := &simConn{p: p, end: 1, local: a.remote, remote: a.local}
		n.lock()
		n.conns = append(n.conns, a)
		n.unlock()
		select {
		case ln.ch <- b:
		default:
			return nil, opErr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
		}
		return a, nil
	}
}

func mapCtxErr(err error) error {
	if errors.Is(err, context.DeadlineExceeded) {
		return os.ErrDeadlineExceeded
	}
	return errors.New("operation was canceled")
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}

// delay of the k-th segment of a connection: a pure function of the seed.
func (n *simNet) delay(id, k int) time.Duration {
	if len(n.latency) == 0 {
		return 0
	}
	h := mix(n.seed ^ uint64(id)*0x9E3779B97F4A7C15 ^ uint64(k)*0xC2B2AE3D27D4EB4F)
	return time.Duration(n.latency[h%uint64(len(n.latency))]) * time.Millisecond
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }

func (c *simConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *simConn) Read(b []byte) (int, error) {
	p := c.p
	p.mu.Lock()
	defer p.mu.Unlock()
	h := &p.dir[1-c.end]
	for {
		if p.closed[c.end] {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if p.err != nil {
			return 0, c.opErr("read", p.err)
		}
		if len(h.buf) > 0 {
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			h.inflight -= n
			p.cond.Broadcast()
			return n, nil
		}
		if h.eof {
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		if d := p.rdl[c.end]; !d.IsZero() && !time.Now().Before(d) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		p.cond.Wait()
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	p := c.p
	simnet.lock()
	lk := *simnet.link(p.host)
	simnet.unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	h := &p.dir[c.end]
	total := 0
	var mark func()
	if c.onMark != nil {
		mark = c.onMark()
	}
	for len(b) > 0 {
		if p.closed[c.end] {
			return total, c.opErr("write", net.ErrClosed)
		}
		if p.err != nil {
			return total, c.opErr("write", p.err)
		}
		if p.closed[1-c.end] && !lk.hole() {
			// the peer is gone: it answers with a reset
			p.err = os.NewSyscallError("write", syscall.ECONNRESET)
			p.cond.Broadcast()
			return total, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if d := p.wdl[c.end]; !d.IsZero() && !time.Now().Before(d) {
			return total, c.opErr("write", os.ErrDeadlineExceeded)
		}
		room := simnet.window - h.inflight
		if room <= 0 {
			p.cond.Wait()
			continue
		}
		n := len(b)
		if n > room {
			n = room
		}
		chunk := b[:n]
		b = b[n:]
		total += n
		segSize := n
		if lk.maxSeg > 0 && lk.maxSeg < n {
			segSize = lk.maxSeg
			if n/segSize > 48 {
				segSize = n/48 + 1
			}
		}
		for len(chunk) > 0 {
			m := segSize
			if m > len(chunk) {
				m = len(chunk)
			}
			s := seg{data: append([]byte(nil), chunk[:m]...)}
			chunk = chunk[m:]
			if len(chunk) == 0 && len(b) == 0 {
				s.mark = mark
			}
			h.inflight += m
			c.send(h, s, lk)
		}
	}
	return total, nil
}

func (l netLink) hole() bool { return l.mode == linkHole }

// send puts a segment in flight (p.mu held).
func (c *simConn) send(h *half, s seg, lk netLink) {
	p := c.p
	p.nseg++
	d := simnet.delay(p.id, p.nseg) + time.Duration(lk.extraMS)*time.Millisecond
	s.at = time.Now().Add(d)
	if s.at.Before(h.lastAt) {
		s.at = h.lastAt
	}
	h.lastAt = s.at
	if d := time.Until(s.at); d <= 0 && len(h.q) == 0 && !lk.hole() && !s.fin {
		// immediate
		h.buf = append(h.buf, s.data...)
		if s.mark != nil {
			s.mark()
		}
		p.cond.Broadcast()
		return
	}
	h.q = append(h.q, s)
	time.AfterFunc(time.Until(s.at), func() { p.deliver(h) })
}

// deliver moves everything that is due into the readable buffer.
func (p *connPair) deliver(h *half) {
	simnet.lock()
	lk := *simnet.link(p.host)
	simnet.unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.err != nil {
		return
	}
	if lk.hole() {
		p.held = true
		return
	}
	now := time.Now()
	for len(h.q) > 0 && !h.q[0].at.After(now) {
		s := h.q[0]
		h.q = h.q[1:]
		h.buf = append(h.buf, s.data...)
		if s.fin {
			h.eof = true
		}
		if s.mark != nil {
			s.mark()
		}
	}
	p.cond.Broadcast()
}

func (c *simConn) Close() error {
	simnet.lock()
	lk := *simnet.link(c.p.host)
	simnet.unlock()
	p := c.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed[c.end] {
		return c.opErr("close", net.ErrClosed)
	}
	p.closed[c.end] = true
	p.closedMS[c.end] = nowMS()
	if p.err == nil {
		c.send(&p.dir[c.end], seg{fin: true}, lk)
	}
	for i := range p.rdlT {
		if i == c.end {
			if p.rdlT[i] != nil {
				p.rdlT[i].Stop()
			}
			if p.wdlT[i] != nil {
				p.wdlT[i].Stop()
			}
		}
	}
	p.cond.Broadcast()
	return nil
}

func (c *simConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) setDL(dl *[2]time.Time, tm *[2]*time.Timer, t time.Time) error {
	p := c.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed[c.end] {
		return c.opErr("set", net.ErrClosed)
	}
	dl[c.end] = t
	if tm[c.end] != nil {
		tm[c.end].Stop()
		tm[c.end] = nil
	}
	if !t.IsZero() {
		d := time.Until(t)
		if d > 0 {
			tm[c.end] = time.AfterFunc(d, func() {
				p.mu.Lock()
				p.cond.Broadcast()
				p.mu.Unlock()
			})
		}
	}
	p.cond.Broadcast()
	return nil
}

func (c *simConn) SetReadDeadline(t time.Time) error  { return c.setDL(&c.p.rdl, &c.p.rdlT, t) }
func (c *simConn) SetWriteDeadline(t time.Time) error { return c.setDL(&c.p.wdl, &c.p.wdlT, t) }

// reset kills the connection at both ends.
func (p *connPair) reset(err error) {
	p.mu.Lock()
	if p.err == nil && !(p.closed[0] && p.closed[1]) {
		p.err = err
		p.cond.Broadcast()
		for _, f := range p.onReset {
			f()
		}
	}
	p.mu.Unlock()
}

var errReset = os.NewSyscallError("read", syscall.ECONNRESET)
var errTimedOut = os.NewSyscallError("read", syscall.ETIMEDOUT)

// live returns the open connections to host.
func (n *simNet) live(host string) []*simConn {
	n.lock()
	defer n.unlock()
	var out []*simConn
	keep := n.conns[:0]
	for _, c := range n.conns {
		c.p.mu.Lock()
		dead := c.p.err != nil || c.p.closed[0] && c.p.closed[1]
		c.p.mu.Unlock()
		if dead {
			continue
		}
		keep = append(keep, c)
		if c.p.host == host {
			out = append(out, c)
		}
	}
	n.conns = keep
	return out
}

// resetAll kills every connection to host.
func (n *simNet) resetAll(host string) int {
	cs := n.live(host)
	for _, c := range cs {
		c.p.reset(errReset)
	}
	return len(cs)
}

// setMode changes the state of the path to a host.
func (n *simNet) setMode(host string, m linkMode) {
	n.lock()
	l := n.link(host)
	old := l.mode
	l.mode = m
	l.since = nowMS()
	n.unlock()
	if m == linkHole && old != linkHole {
		// connections that stay silent too long are dropped by keep-alive
		since := nowMS()
		time.AfterFunc(holeKillMS*time.Millisecond, func() {
			n.lock()
			l := n.link(host)
			still := l.mode == linkHole && l.since == since
			n.unlock()
			if still {
				for _, c := range n.live(host) {
					c.p.reset(errTimedOut)
				}
			}
		})
	}
	if old == linkHole && m != linkHole {
		for _, c := range n.live(host) {
			c.p.deliver(&c.p.dir[0])
			c.p.deliver(&c.p.dir[1])
		}
	}
}

func (n *simNet) install() {
	net.SimListen = func(network, address string) (net.Listener, error) {
		if !runtime.SimInBubble() {
			return nil, errors.New("listen outside the simulation")
		}
		host, port, err := net.SplitHostPort(address)
		if err != nil {
			return nil, &net.OpError{Op: "listen", Net: network, Err: err}
		}
		_ = host
		if port == "http" {
			port = "80"
		}
		return n.listen("ckube", port)
	}
	net.SimDial = func(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
		if !strings.HasPrefix(network, "tcp") || !runtime.SimInBubble() {
			return nil, errors.New("simulated network: only tcp")
		}
		return n.dial(ctx, "ckube", address, d.Timeout, d.Deadline)
	}
}
