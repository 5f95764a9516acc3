package sched

// Chan stands in for a channel; its operations are the runtime's, in the same
// order of service.
type Chan[T any] struct {
	size         int
	buf          []T
	recvq, sendq []waiter[T]
	closed       bool
}

// op is one send, receive or select statement that may have to wait.
type op struct {
	done bool
	i    int // the case that was taken
	v    interface{}
	ok   bool // false: by the channel's end
}

// waiter is a case of an operation that waits.
type waiter[T any] struct {
	o *op
	i int
	v T // what it sends
}

func MakeChan[T any](size ...int) *Chan[T] {
	c := &Chan[T]{}
	for _, n := range size {
		if n < 0 {
			panic("makechan: size out of range")
		}
		c.size = n
	}
	return c
}

// next is the first waiter whose operation still waits.
func next[T any](q *[]waiter[T]) (w waiter[T], ok bool) {
	for len(*q) > 0 {
		w, *q = (*q)[0], (*q)[1:]
		if !w.o.done {
			return w, true
		}
	}
	return w, false
}

// trySend sends if that can be done at once.
func (c *Chan[T]) trySend(v T) bool {
	if c == nil {
		return false
	}
	if c.closed {
		panic("send on closed channel")
	}
	if w, ok := next(&c.recvq); ok {
		*w.o = op{done: true, i: w.i, v: v, ok: true}
		return true
	}
	if len(c.buf) < c.size {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

// tryRecv receives if that can be done at once.
func (c *Chan[T]) tryRecv() (v T, ok, now bool) {
	if c == nil {
		return
	}
	if len(c.buf) > 0 {
		v, c.buf = c.buf[0], c.buf[1:]
		if w, ok := next(&c.sendq); ok {
			c.buf = append(c.buf, w.v)
			*w.o = op{done: true, i: w.i, ok: true}
		}
		return v, true, true
	}
	if w, ok := next(&c.sendq); ok {
		*w.o = op{done: true, i: w.i, ok: true}
		return w.v, true, true
	}
	return v, false, c.closed
}

func (c *Chan[T]) Send(v T) { Select(false, SendCase(c, v)) }

func (c *Chan[T]) Recv2() (v T, ok bool) { return Got2(c, Select(false, RecvCase(c))) }

func (c *Chan[T]) Recv() T { return Got(c, Select(false, RecvCase(c))) }

func Close[T any](c *Chan[T]) {
	Sync()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for _, q := range []*[]waiter[T]{&c.recvq, &c.sendq} {
		for w, ok := next(q); ok; w, ok = next(q) {
			*w.o = op{done: true, i: w.i}
		}
	}
}

func Len[T any](c *Chan[T]) int {
	Sync()
	if c == nil {
		return 0
	}
	return len(c.buf)
}

func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.size
}

// Case is a case of a select statement.
type Case struct {
	try  func(o *op) bool
	wait func(o *op, i int)
	// the channel's end is a failure
	send bool
}

func RecvCase[T any](c *Chan[T]) Case {
	return Case{func(o *op) bool {
		v, ok, now := c.tryRecv()
		o.v, o.ok = v, ok
		return now
	}, func(o *op, i int) {
		if c != nil {
			c.recvq = append(c.recvq, waiter[T]{o: o, i: i})
		}
	}, false}
}

func SendCase[T any](c *Chan[T], v T) Case {
	return Case{func(o *op) bool { return c.trySend(v) }, func(o *op, i int) {
		if c != nil {
			c.sendq = append(c.sendq, waiter[T]{o, i, v})
		}
	}, true}
}

// Selected is the case that was taken; I is -1 for the default.
type Selected struct {
	I  int
	v  interface{}
	ok bool
}

// Select takes the first case that is ready.
func Select(byDefault bool, cases ...Case) Selected {
	Sync()
	var o op
	for i, c := range cases {
		if c.try(&o) {
			return Selected{i, o.v, o.ok}
		}
	}
	if byDefault {
		return Selected{I: -1}
	}
	o = op{}
	for i, c := range cases {
		c.wait(&o, i)
	}
	Wait(func() bool { return o.done })
	if cases[o.i].send && !o.ok {
		panic("send on closed channel")
	}
	return Selected{o.i, o.v, o.ok}
}

func Got[T any](c *Chan[T], s Selected) T {
	v, _ := s.v.(T)
	return v
}

func Got2[T any](c *Chan[T], s Selected) (T, bool) { return Got(c, s), s.ok }
