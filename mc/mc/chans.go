package mc

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"time"
	"unsafe"
)

// chanKey identifies a channel whatever the direction of the view.
type chanKey = unsafe.Pointer

// channels closed during the current execution
var (
	closedChans map[chanKey]bool
	closedEpoch uint64
)

func isClosed(k chanKey) bool {
	return closedEpoch == Epoch && len(closedChans) > 0 && closedChans[k]
}

func rkey[T any](ch <-chan T) chanKey { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func skey[T any](ch chan<- T) chanKey { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// waiter finds the longest waiting receiver of an unbuffered channel.
func waiter(k chanKey) (*thread, int) {
	var best *thread
	bi := -1
	for _, t := range e.threads {
		if t.dead || t.got || t == e.cur {
			continue
		}
		for i := range t.recvs {
			if t.recvs[i].ch == k && (best == nil || t.arrival < best.arrival) {
				best, bi = t, i
				break
			}
		}
	}
	return best, bi
}

// Sender replaces ch <- v by Sender(ch)(v).
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

func send[T any](ch chan<- T, v T) {
	if e == nil {
		ch <- v
		return
	}
	if beforeSend(skey(ch)) {
		ch <- v // buffered, or panics as the real one does
		return
	}
	rendezvous(skey(ch), func() { ch <- v })
}

// chanLen and chanCap read the length and the capacity of any channel.
func chanLen(k chanKey) int { return int(*(*uint)(k)) }
func chanCap(k chanKey) int { return int(*(*uint)(unsafe.Add(k, unsafe.Sizeof(uint(0))))) }

func init() {
	c := make(chan [3]byte, 7)
	c <- [3]byte{}
	c <- [3]byte{}
	k := rkey[[3]byte](c)
	if chanLen(k) != 2 || chanCap(k) != 7 {
		panic("mc: unknown channel layout")
	}
}

// beforeSend waits until the send can proceed; false: to a waiting receiver of an unbuffered channel.
func beforeSend(k chanKey) bool {
	if e.abort {
		runtime.Goexit()
	}
	x, t := e, e.cur
	t.set("send")
	t.kind = kBlock
	if k == nil {
		t.ready = func() bool { return false }
		x.point(t)
		return true
	}
	if chanCap(k) > 0 {
		t.ready = func() bool { return chanLen(k) < chanCap(k) || isClosed(k) }
		x.point(t)
		return true
	}
	t.ready = func() bool {
		if isClosed(k) {
			return true
		}
		save := x.cur
		x.cur = t
		w, _ := waiter(k)
		x.cur = save
		return w != nil
	}
	x.point(t)
	return isClosed(k)
}

// rendezvous lets the waiting receiver take the value while this thread performs the real send.
func rendezvous(k chanKey, do func()) {
	x := e
	w, i := waiter(k)
	r := w.recvs[i]
	w.got, w.gotCase = true, r.idx
	w.courier = r.take
	raceDisable()
	w.wake <- struct{}{}
	raceEnable()
	do()
	x.step(x.cur)
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if e == nil {
		v, ok := <-ch
		return v, ok
	}
	c := NewRecv(ch)
	Select(false, c)
	return c.V, c.OK
}

// RecvTo is the loop condition that replaces for v := range ch.
func RecvTo[T any](ch <-chan T, p *T) bool {
	v, ok := Recv2(ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// Range iterates over a channel.
type Range[T any] struct {
	V  T
	ch <-chan T
}

// NewRange builds the iterator.
func NewRange[T any](ch <-chan T) *Range[T] { return &Range[T]{ch: ch} }

// Next receives.
func (r *Range[T]) Next() bool { return RecvTo(r.ch, &r.V) }

// ZeroC is the zero value of a channel's element.
func ZeroC[T any](ch <-chan T) (z T) { return }

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	if e != nil && !beforeClose(skey(ch)) {
		return
	}
	close(ch)
}

func beforeClose(k chanKey) bool {
	if e.abort {
		return false
	}
	Point("close")
	if k != nil {
		if closedEpoch != Epoch {
			closedEpoch, closedChans = Epoch, map[chanKey]bool{}
		}
		closedChans[k] = true
	}
	return true
}

// Case is one case of a select statement.
type Case interface {
	base() *caseBase
	perform()
}

// caseBase is the part of a case the scheduler looks at.
type caseBase struct {
	send bool
	k    chanKey
	tm   *Timer
	dn   bool
}

func (c *caseBase) base() *caseBase { return c }

func (c *caseBase) init(k chanKey, send bool) {
	c.k, c.send = k, send
	if e != nil && k != nil && !send {
		c.tm = e.timers[k]
	}
}

// ready: 0 no, 1 yes, 3 an undue timer
func (c *caseBase) ready() int {
	if c.k == nil {
		return 0
	}
	if isClosed(c.k) {
		return 1
	}
	if c.send {
		if n := chanCap(c.k); n > 0 {
			if chanLen(c.k) < n {
				return 1
			}
			return 0
		}
		if w, _ := waiter(c.k); w != nil {
			return 1
		}
		return 0
	}
	if chanLen(c.k) > 0 {
		return 1
	}
	if c.tm != nil && c.tm.armed {
		if e.now >= c.tm.due {
			return 1
		}
		return 3
	}
	return 0
}

// before prepares a receive; it tells whether the value was already taken.
func (c *caseBase) before() bool {
	if c.dn {
		return true
	}
	if c.tm != nil && c.tm.armed && chanLen(c.k) == 0 {
		c.tm.fire()
	}
	return false
}

func (c *caseBase) direct() bool { return chanCap(c.k) > 0 || isClosed(c.k) }

// RecvCase receives.
type RecvCase[T any] struct {
	caseBase
	V  T
	OK bool
	ch <-chan T
}

// NewRecv builds a receive case.
func NewRecv[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{ch: ch}
	c.init(rkey(ch), false)
	return c
}

func (c *RecvCase[T]) perform() {
	if !c.before() {
		c.V, c.OK = <-c.ch
	}
}

// SendCase sends.
type SendCase[T any] struct {
	caseBase
	ch chan<- T
	v  T
}

// NewSend builds a send case: NewSend(ch)(v).
func NewSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		c := &SendCase[T]{ch: ch, v: v}
		c.init(skey(ch), true)
		return c
	}
}

func (c *SendCase[T]) perform() {
	if c.direct() {
		c.ch <- c.v
		return
	}
	rendezvous(c.k, func() { c.ch <- c.v })
}

// Select performs a select statement and returns the index of the chosen case (-1: default).
func Select(hasDefault bool, cases ...Case) int {
	if e == nil {
		panic("mc: select outside the scheduler")
	}
	if e.abort {
		runtime.Goexit()
	}
	if Park != nil && !hasDefault {
		for _, c := range cases {
			if c.base().tm != nil && Park() {
				Block("parked", func() bool { return false })
			}
		}
	}
	x, t := e, e.cur
	name := "select"
	if len(cases) == 1 {
		name = "receive"
	}
	t.set(name)
	if hasDefault {
		x.point(t)
	} else {
		t.kind = kBlock
		for i, c := range cases {
			if b := c.base(); !b.send && b.k != nil && chanCap(b.k) == 0 {
				c := c
				t.recvs = append(t.recvs, recvWait{b.k, i, func() { c.perform(); b.dn = true }})
			}
		}
		x.seq++
		t.arrival = x.seq
		t.ready = func() bool {
			if t.got {
				return true
			}
			save := x.cur
			x.cur = t
			ok := false
			for _, c := range cases {
				if c.base().ready() == 1 {
					ok = true
					break
				}
			}
			x.cur = save
			return ok
		}
		t.late = func() bool {
			ok := false
			for _, c := range cases {
				if b := c.base(); b.ready() == 3 && (!ok || b.tm.due < t.due) {
					ok, t.due = true, b.tm.due
				}
			}
			return ok
		}
		x.point(t)
	}
	t.recvs = nil
	if t.got {
		t.got = false
		return t.gotCase
	}
	var rdy [32]int
	n, n0 := 0, 0
	for pass := 0; pass < 2; pass++ {
		for i, c := range cases {
			if r := c.base().ready(); n < 32 && (pass == 0 && r == 1 || pass == 1 && r == 3) {
				rdy[n] = i
				n++
				for j := n - 1; pass == 1 && j > n0 && cases[rdy[j]].base().tm.due < cases[rdy[j-1]].base().tm.due; j-- {
					rdy[j], rdy[j-1] = rdy[j-1], rdy[j] // the timer that is due first
				}
			}
		}
		if pass == 0 && n == 0 && hasDefault {
			return -1
		}
		n0 = n
	}
	if n == 0 {
		if hasDefault {
			return -1
		}
		panic("mc: select woke without a ready case")
	}
	i := rdy[Choose(n)]
	cases[i].perform()
	x.step(t)
	return i
}

// ---- virtual time ----

// Timer is a virtual timer.
type Timer struct {
	C     <-chan time.Time
	c     chan time.Time
	due   time.Duration
	armed bool
	every time.Duration
	f     func()
	th    *thread // waits to run f
}

var timeBase = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

func (t *Timer) fire() {
	if e.now < t.due {
		e.now = t.due
	}
	if t.every > 0 {
		t.due = after(t.every)
	} else {
		t.armed = false
	}
	select {
	case t.c <- Now():
	default:
	}
}

// after is the time in d, which may be very far away.
func after(d time.Duration) time.Duration {
	if t := e.now + d; d <= 0 || t > e.now {
		return t
	}
	return math.MaxInt64
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, armed: true}
	if e != nil {
		t.due = after(d)
		e.timers[rkey(t.C)] = t
	}
	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	a := t.armed
	t.armed = false
	if a && t.th != nil && e != nil && !e.abort {
		e.retire(t.th)
		t.th = nil
	}
	return a
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	a := t.armed
	t.armed, t.due = true, after(d)
	if !a && t.f != nil {
		t.start()
	}
	return a
}

// Ticker replaces time.Ticker.
type Ticker struct{ Timer }

// Stop stops the ticker.
func (t *Ticker) Stop() { t.armed = false }

// Reset changes the period of the ticker.
func (t *Ticker) Reset(d time.Duration) { t.armed, t.every, t.due = true, d, after(d) }

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	t := NewTimer(d)
	k := &Ticker{*t}
	k.every = d
	if e != nil {
		e.timers[rkey(k.C)] = &k.Timer
	}
	return k
}

// Tick replaces time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	if e == nil {
		return time.After(d)
	}
	return NewTimer(d).C
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := NewTimer(d)
	t.f = f
	t.start()
	return t
}

func (t *Timer) start() {
	if e == nil {
		go func() { <-t.C; t.f() }()
		return
	}
	if e.abort {
		return
	}
	x, cur := e, e.cur
	t.th = spawn(func() { Recv(t.C); t.f() })
	x.step(cur)
	cur.set("go statement")
	x.point(cur)
}

// Now replaces time.Now.
func Now() time.Time {
	if e == nil {
		return time.Now()
	}
	e.now++
	return timeBase.Add(e.now)
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Park, when set, is asked at every time.Sleep of the program: true ends the thread's part in the execution
// (a loop that goes on for ever would never leave the floor to a delayed thread).
var Park func() bool

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	if e != nil && !e.abort && Park != nil && Park() {
		Block("parked", func() bool { return false })
	}
	Nap(d)
}

// Nap is Sleep for the harness.
func Nap(d time.Duration) {
	if e == nil {
		time.Sleep(d)
		return
	}
	if e.abort {
		runtime.Goexit()
	}
	t := e.cur
	t.set("sleep")
	t.kind, t.due = kSleep, after(d)
	e.point(t)
}

// Advance moves the virtual clock.
func Advance(d time.Duration) {
	if e != nil {
		e.now += d
	}
}

// ---- fatal ends ----

// LogFatal replaces log.Fatal and log.Fatalln.
func LogFatal(a ...interface{}) { Fatal(fmt.Sprint(a...)) }

// LogFatalf replaces log.Fatalf.
func LogFatalf(f string, a ...interface{}) { Fatal(fmt.Sprintf(f, a...)) }

// Exit replaces os.Exit.
func Exit(code int) { Fatal(fmt.Sprintf("os.Exit(%d)", code)) }

// ---- map iteration in a fixed order ----

// MapIter iterates a map in key order (descending under odd base orders).
type MapIter[K comparable, V any] struct {
	K    K
	V    V
	m    map[K]V
	keys []K
	i    int
}

// NewMapIter builds the iterator.
func NewMapIter[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	switch ks := interface{}(it.keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		s := make([]string, len(it.keys))
		for i, k := range it.keys {
			s[i] = fmt.Sprint(k)
		}
		sort.Sort(&byStr[K]{s, it.keys})
	}
	if e != nil && e.base%2 == 1 {
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

type byStr[K any] struct {
	s []string
	k []K
}

func (b *byStr[K]) Len() int           { return len(b.s) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.s[i], b.s[j] = b.s[j], b.s[i]
	b.k[i], b.k[j] = b.k[j], b.k[i]
}

// Next advances and stores key and value.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue // deleted meanwhile
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// More advances and stores key and value in the iterator.
func (it *MapIter[K, V]) More() bool { return it.Next(&it.K, &it.V) }

// ZeroK and ZeroV are zero values of a map's key and element.
func ZeroK[M ~map[K]V, K comparable, V any](m M) (z K) { return }

// ZeroV is the zero element.
func ZeroV[M ~map[K]V, K comparable, V any](m M) (z V) { return }

// GoCall replaces go f(args...) for calls with arguments, which are evaluated now.
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() { fv.Call(in) })
}
