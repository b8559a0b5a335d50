package main

// Interleaving exploration for v.Par: simulated threads yield before every
// atomic operation, lock operation and memory access of target code.

type parThread struct {
	resume chan bool // false: be killed
	event  chan interface{}
	done   bool
	wait   func() bool // nil or: may it run?
	next   parYield    // what it does when it is resumed
}

type parState struct {
	threads []*parThread
	cur     int
	off     bool
}

// parYield is the operation a thread is about to perform; the empty one touches nothing shared.
type parYield struct {
	what string
	at   Ptr
}

// independent: the two operations give the same result in either order.
func independent(a, b parYield) bool {
	if a.what == "" || b.what == "" || a.what == "load" && b.what == "load" {
		return true
	}
	if (a.what == "pool") != (b.what == "pool") {
		return true // a pool's own state is nowhere else
	}
	if a.at.isNil() || b.at.isNil() {
		return false
	}
	if a.at.c != nil && b.at.c != nil {
		return a.at.c != b.at.c && scalarCell(a.at.c) && scalarCell(b.at.c)
	}
	if a.at.arr != nil && b.at.arr != nil {
		return a.at.arr != b.at.arr || a.at.ie == nil && b.at.ie == nil && a.at.i != b.at.i
	}
	return scalarCell(a.at.c) && scalarCell(b.at.c)
}

func scalarCell(c *Value) bool {
	if c == nil {
		return true
	}
	switch (*c).(type) {
	case *StructV, *Arr:
		return false
	}
	return true
}
type parDone struct{}
type parKilled struct{}

func (p *parState) yield(m *Machine, what string, ptr Ptr) {
	if p.off {
		return
	}
	if m.spec != nil {
		panic(specAbort{})
	}
	t := p.threads[p.cur]
	t.event <- parYield{what, ptr}
	if !<-t.resume {
		panic(parKilled{})
	}
}

// block parks the current thread until ready reports true.
func (p *parState) block(m *Machine, ready func() bool) {
	t := p.threads[p.cur]
	for !ready() {
		t.wait = ready
		t.event <- parYield{what: "wait"}
		if !<-t.resume {
			panic(parKilled{})
		}
		t.wait = nil
	}
}

// runPar explores the schedules of fs: all of them, or with reduce one of every set that differs only in the order of independent
// operations (sleep sets).
func (m *Machine) runPar(fr *frame, fs []*Closure, reduce bool) {
	if m.par != nil {
		unsupported("nested Par")
	}
	ps := &parState{}
	m.par = ps
	for i := range fs {
		t := &parThread{resume: make(chan bool), event: make(chan interface{})}
		ps.threads = append(ps.threads, t)
		f := fs[i]
		go func() {
			defer func() {
				x := recover()
				if _, k := x.(parKilled); k {
					t.event <- parDone{}
					return
				}
				if x != nil {
					t.event <- x
					return
				}
				t.event <- parDone{}
			}()
			if !<-t.resume {
				panic(parKilled{})
			}
			m.call(nil, f, nil)
		}()
	}
	depth := m.depth
	kill := func() {
		for _, t := range ps.threads {
			if !t.done {
				t.resume <- false
				<-t.event
				t.done = true
			}
		}
		m.par = nil
		m.depth = depth
	}
	fail := func(x interface{}) {
		kill()
		panic(x)
	}
	sleep := map[int]bool{}
	for {
		var run []int
		alive := 0
		for i, t := range ps.threads {
			if t.done {
				continue
			}
			alive++
			if t.wait == nil || t.wait() {
				run = append(run, i)
			}
		}
		if alive == 0 {
			break
		}
		if len(run) == 0 {
			m.par = nil
			kill()
			panic(targetPanic{msg: "deadlock: every goroutine is blocked", pos: m.pos()})
		}
		if reduce {
			var awake []int
			for _, i := range run {
				if !sleep[i] {
					awake = append(awake, i)
				}
			}
			if run = awake; len(run) == 0 {
				fail(pathAbort{abInfeasible, "a schedule that only reorders independent operations"})
			}
		}
		k := 0
		func() {
			defer func() {
				if x := recover(); x != nil {
					fail(x)
				}
			}()
			c := m.choose(len(run))
			k = run[c]
			for _, i := range run[:c] {
				sleep[i] = true
			}
		}()
		for i := range sleep {
			if !independent(ps.threads[i].next, ps.threads[k].next) {
				delete(sleep, i)
			}
		}
		ps.cur = k
		t := ps.threads[k]
		m.path.sched = append(m.path.sched, string(rune('0'+k)))
		t.resume <- true
		switch ev := (<-t.event).(type) {
		case parYield:
			t.next = ev
		case parDone:
			t.done = true
		default:
			t.done = true
			fail(ev)
		}
	}
	m.par = nil
	m.depth = depth
}
