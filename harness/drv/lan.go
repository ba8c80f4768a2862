package drv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	bgrpc "github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/router"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"

	"verifharness/vy"
)

// lan is an in-memory network: whatever listens on a port does so at the ip set at that time.
type lan struct {
	mu    sync.Mutex
	ip    string
	m     map[string]*bufconn.Listener
	conns map[string][]net.Conn
}

var theLan = &lan{m: map[string]*bufconn.Listener{}, conns: map[string][]net.Conn{}}

// at sets the ip of those that listen from now on.
func (l *lan) at(ip string) {
	l.mu.Lock()
	l.ip = ip
	l.mu.Unlock()
}

// kill cuts off whatever listens at the address and everything connected to it.
func (l *lan) kill(p string) {
	l.mu.Lock()
	b := l.m[p]
	delete(l.m, p)
	cs := l.conns[p]
	delete(l.conns, p)
	l.mu.Unlock()
	if b != nil {
		b.Close()
	}
	for _, c := range cs {
		c.Close()
	}
}

type lanListener struct {
	*bufconn.Listener
	l *lan
	p string
}

func (l lanListener) Close() error {
	l.l.mu.Lock()
	if l.l.m[l.p] == l.Listener {
		delete(l.l.m, l.p)
	}
	l.l.mu.Unlock()
	return l.Listener.Close()
}

func (l *lan) listen(network, addr string) (net.Listener, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	p := addr
	if strings.HasPrefix(p, ":") {
		p = l.ip + p
	}
	if _, ok := l.m[p]; ok {
		return nil, errors.New("address already in use")
	}
	b := bufconn.Listen(1 << 16)
	l.m[p] = b
	return lanListener{b, l, p}, nil
}

func (l *lan) dial(ctx context.Context, addr string) (net.Conn, error) {
	l.mu.Lock()
	b := l.m[addr]
	l.mu.Unlock()
	if b == nil {
		return nil, errors.New("connection refused")
	}
	c, err := b.DialContext(ctx)
	if err == nil {
		l.mu.Lock()
		l.conns[addr] = append(l.conns[addr], c)
		l.mu.Unlock()
	}
	return c, err
}

var lanOnce sync.Once

// useLan routes every grpc connection of the process over the in-memory network.
func useLan() {
	lanOnce.Do(func() {
		vy.ListenHook = theLan.listen
		bgrpc.WithDialOptions(grpc.WithContextDialer(theLan.dial))(&bgrpc.DefaultClientParm)
	})
}

// ------------------------------------------------------------------------------------- rpc client

type rpcSrv struct {
	rec  *Rec
	gate *gates
	mu   sync.Mutex
	kind map[string]string
}

func (s *rpcSrv) Routing(ctx context.Context, req *router.RouteReq) (*router.RouteRes, error) {
	h := req.Msg.Header
	x := h.ID
	s.rec.Add("hs", "x", x, "same", string(req.Msg.Body) == "body-"+x && h.Event == "ev")
	<-s.gate.get(x)
	s.mu.Lock()
	k := s.kind[x]
	s.mu.Unlock()
	s.rec.Add("he", "x", x)
	if k == "err" {
		return nil, status.Error(codes.Internal, "remote "+x)
	}
	return &router.RouteRes{Msg: &router.Message{Header: &router.Header{ID: x}, Body: []byte("reply-" + x)}}, nil
}

func (e *env) runRpc(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	useLan()
	max := 1
	sc.cfg("max", &max)
	srv := &rpcSrv{rec: rec, gate: &gates{}, kind: map[string]string{}}
	start := func(p string) *grpc.Server {
		l, err := theLan.listen("tcp", "h:"+p)
		if err != nil {
			harnessError("listen: %v", err)
		}
		s := grpc.NewServer()
		router.RegisterAcceptorServer(s, srv)
		go s.Serve(l)
		return s
	}
	srvs := map[string]*grpc.Server{"1": start("1"), "2": start("2")}
	cl := bgrpc.BuildClientWithOption(bgrpc.WithMaxConcurrentCalls(max), bgrpc.WithClientConns([]string{"h:1"}))
	cl.Init()
	e.settle()
	rec.Add("cfg", "max", max)
	var mu sync.Mutex
	cancels := map[string]context.CancelFunc{}
	for _, ph := range sc.Phases {
		for _, th := range ph.Threads {
			for _, p := range th {
				if p.Op == "call" {
					srv.kind[p.X] = p.K
				}
			}
		}
	}
	do := func(p P) {
		switch p.Op {
		case "go":
			for _, x := range p.L {
				srv.gate.open(x)
			}
		case "cancel":
			mu.Lock()
			c := cancels[p.X]
			mu.Unlock()
			if c != nil {
				rec.Add("cancel", "x", p.X)
				c()
			}
		case "down":
			rec.Add("net", "up", false)
			srvs[p.A].Stop()
		case "up":
			srvs[p.A] = start(p.A)
			rec.Add("net", "up", true)
		case "call":
			ctx, c := context.WithCancel(context.Background())
			if p.M > 0 {
				var c2 context.CancelFunc
				ctx, c2 = context.WithTimeout(ctx, time.Duration(p.M)*time.Millisecond)
				defer c2()
			}
			rec.Add("cinv", "x", p.X, "k", p.K, "lim", !p.F, "dl", p.M)
			mu.Lock()
			cancels[p.X] = c
			mu.Unlock()
			addr := "h:" + p.A
			if p.K == "noconn" {
				addr = "h:9"
			}
			var opts []interface{}
			if p.K == "badopt" {
				opts = append(opts, "not an option")
			} else if p.N%2 == 1 {
				opts = append(opts, grpc.MaxCallSendMsgSize(1<<20))
			}
			req := &router.RouteReq{Msg: &router.Message{Header: &router.Header{ID: p.X, Event: "ev"}, Body: []byte("body-" + p.X)}}
			res := &router.RouteRes{}
			var err error
			if p.F {
				err = cl.CallWait(ctx, addr, "/router.Acceptor/routing", req, res, opts...)
			} else {
				err = cl.Call(ctx, addr, "/router.Acceptor/routing", req, res, opts...)
			}
			match := res.Msg != nil && res.Msg.Header != nil && res.Msg.Header.ID == p.X && string(res.Msg.Body) == "reply-"+p.X
			rec.Add("cret", "x", p.X, "err", err != nil, "match", match, "why", fmt.Sprint(err))
		}
	}
	e.phases(sc, do, nil)
	for _, s := range srvs {
		s.Stop()
	}
	mu.Lock()
	for _, c := range cancels {
		c()
	}
	mu.Unlock()
}
