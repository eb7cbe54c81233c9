// Package context is the standard package after instrumentation (see cmd/instrument).
// Code generated from GOROOT/src/context/context.go; BSD licence, The Go Authors. DO NOT EDIT.

package context

import __rt "verif.local/sim/rt"

import (
	"errors"
	"reflect"
	atomic "verif.local/sim/shim/atomic"
	sync "verif.local/sim/shim/sync"
	time "verif.local/sim/shim/time"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)

	Done() *__rt.Chan[struct{}]

	Err() error

	Value(key any) any
}

var Canceled = errors.New("context canceled")

var DeadlineExceeded error = deadlineExceededError{}

type deadlineExceededError struct{}

func (deadlineExceededError) Error() string   { __rt.Y(); return "context deadline exceeded" }
func (deadlineExceededError) Timeout() bool   { __rt.Y(); return true }
func (deadlineExceededError) Temporary() bool { __rt.Y(); return true }

type emptyCtx struct{}

func (emptyCtx) Deadline() (deadline time.Time, ok bool) {
	__rt.Y()
	return
}

func (emptyCtx) Done() *__rt.Chan[struct{}] {
	__rt.Y()
	return nil
}

func (emptyCtx) Err() error {
	__rt.Y()
	return nil
}

func (emptyCtx) Value(key any) any {
	__rt.Y()
	return nil
}

type backgroundCtx struct{ emptyCtx }

func (backgroundCtx) String() string {
	__rt.Y()
	return "context.Background"
}

type todoCtx struct{ emptyCtx }

func (todoCtx) String() string {
	__rt.Y()
	return "context.TODO"
}

func Background() Context {
	__rt.Y()
	return backgroundCtx{}
}

func TODO() Context {
	__rt.Y()
	return todoCtx{}
}

type CancelFunc func()

func WithCancel(parent Context) (ctx Context, cancel CancelFunc) {
	__rt.Y()
	c := withCancel(parent)
	__rt.Y()
	return c, func() { __rt.Y(); c.cancel(true, Canceled, nil) }
}

type CancelCauseFunc func(cause error)

func WithCancelCause(parent Context) (ctx Context, cancel CancelCauseFunc) {
	__rt.Y()
	c := withCancel(parent)
	__rt.Y()
	return c, func(cause error) { __rt.Y(); c.cancel(true, Canceled, cause) }
}

func withCancel(parent Context) *cancelCtx {
	__rt.Y()
	if parent == nil {
		__rt.Y()
		panic("cannot create context from nil parent")
	}
	__rt.Y()
	c := &cancelCtx{}
	__rt.Y()
	c.propagateCancel(parent, c)
	__rt.Y()
	return c
}

func Cause(c Context) error {
	__rt.Y()
	err := c.Err()
	__rt.Y()
	if err == nil {
		__rt.Y()
		return nil
	}
	__rt.Y()
	if cc, ok := c.Value(&cancelCtxKey).(*cancelCtx); ok {
		__rt.Y()
		cc.mu.Lock()
		__rt.Y()
		cause := cc.cause
		__rt.Y()
		cc.mu.Unlock()
		__rt.Y()
		if cause != nil {
			__rt.Y()
			return cause
		}
	}
	__rt.Y()
	return err
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	__rt.Y()
	a := &afterFuncCtx{
		f: f,
	}
	__rt.Y()
	a.cancelCtx.propagateCancel(ctx, a)
	__rt.Y()
	return func() bool {
		__rt.Y()
		stopped := false
		__rt.Y()
		a.once.Do(func() {
			__rt.Y()
			stopped = true
		})
		__rt.Y()
		if stopped {
			__rt.Y()
			a.cancel(true, Canceled, nil)
		}
		__rt.Y()
		return stopped
	}
}

type afterFuncer interface {
	AfterFunc(func()) func() bool
}

type afterFuncCtx struct {
	cancelCtx
	once sync.Once // either starts running f or stops f from running
	f    func()
}

func (a *afterFuncCtx) cancel(removeFromParent bool, err, cause error) {
	__rt.Y()
	a.cancelCtx.cancel(false, err, cause)
	__rt.Y()
	if removeFromParent {
		__rt.Y()
		removeChild(a.Context, a)
	}
	__rt.Y()
	a.once.Do(func() {
		__rt.Y()
		__rt.Go(a.f)
	})
}

type stopCtx struct {
	Context
	stop func() bool
}

var goroutines atomic.Int32

var cancelCtxKey int

func parentCancelCtx(parent Context) (*cancelCtx, bool) {
	__rt.Y()
	done := parent.Done()
	__rt.Y()
	if done == closedchan || done == nil {
		__rt.Y()
		return nil, false
	}
	__rt.Y()
	p, ok := parent.Value(&cancelCtxKey).(*cancelCtx)
	__rt.Y()
	if !ok {
		__rt.Y()
		return nil, false
	}
	__rt.Y()
	pdone, _ := p.done.Load().(*__rt.Chan[struct{}])
	__rt.Y()
	if pdone != done {
		__rt.Y()
		return nil, false
	}
	__rt.Y()
	return p, true
}

func removeChild(parent Context, child canceler) {
	__rt.Y()
	if s, ok := parent.(stopCtx); ok {
		__rt.Y()
		s.stop()
		__rt.Y()
		return
	}
	__rt.Y()
	p, ok := parentCancelCtx(parent)
	__rt.Y()
	if !ok {
		__rt.Y()
		return
	}
	__rt.Y()
	p.mu.Lock()
	__rt.Y()
	if p.children != nil {
		__rt.Y()
		delete(p.children, child)
	}
	__rt.Y()
	p.mu.Unlock()
}

type canceler interface {
	cancel(removeFromParent bool, err, cause error)
	Done() *__rt.Chan[struct{}]
}

var closedchan = __rt.MakeChan[struct{}]()

func init() {
	__rt.Y()
	(closedchan).Close()
}

type cancelCtx struct {
	Context

	mu       sync.Mutex            // protects following fields
	done     atomic.Value          // of chan struct{}, created lazily, closed by first cancel call
	children map[canceler]struct{} // set to nil by the first cancel call
	err      atomic.Value          // set to non-nil by the first cancel call
	cause    error                 // set to non-nil by the first cancel call
}

func (c *cancelCtx) Value(key any) any {
	__rt.Y()
	if key == &cancelCtxKey {
		__rt.Y()
		return c
	}
	__rt.Y()
	return value(c.Context, key)
}

func (c *cancelCtx) Done() *__rt.Chan[struct{}] {
	__rt.Y()
	d := c.done.Load()
	__rt.Y()
	if d != nil {
		__rt.Y()
		return d.(*__rt.Chan[struct{}])
	}
	__rt.Y()
	c.mu.Lock()
	__rt.Y()
	defer c.mu.Unlock()
	__rt.Y()
	d = c.done.Load()
	__rt.Y()
	if d == nil {
		__rt.Y()
		d = __rt.MakeChan[struct{}]()
		__rt.Y()
		c.done.Store(d)
	}
	__rt.Y()
	return d.(*__rt.Chan[struct{}])
}

func (c *cancelCtx) Err() error {
	__rt.Y()
	if err := c.err.Load(); err != nil {
		__rt.Y()
		(c.Done()).Recv()
		__rt.Y()
		return err.(error)
	}
	__rt.Y()
	return nil
}

func (c *cancelCtx) propagateCancel(parent Context, child canceler) {
	__rt.Y()
	c.Context = parent

	__rt.Y()
	done := parent.Done()
	__rt.Y()
	if done == nil {
		__rt.Y()
		return // parent is never canceled
	}

	__rt.Y()
	{
		__s2 := done
		_ = __s2
		switch __rt.Select(true, __s2.RecvCase()) {
		case 0:
			__rt.Y()
			child.cancel(false, parent.Err(), Cause(parent))
			__rt.Y()
			return
		default:
		}
	}

	__rt.Y()
	if p, ok := parentCancelCtx(parent); ok {
		__rt.Y()
		p.mu.Lock()
		__rt.Y()
		if err := p.err.Load(); err != nil {
			__rt.Y()
			child.cancel(false, err.(error), p.cause)
		} else {
			__rt.Y()
			if p.children == nil {
				__rt.Y()
				p.children = make(map[canceler]struct{})
			}
			__rt.Y()
			p.children[child] = struct{}{}
		}
		__rt.Y()
		p.mu.Unlock()
		__rt.Y()
		return
	}

	__rt.Y()
	if a, ok := parent.(afterFuncer); ok {
		__rt.Y()
		c.mu.Lock()
		__rt.Y()
		stop := a.AfterFunc(func() {
			__rt.Y()
			child.cancel(false, parent.Err(), Cause(parent))
		})
		__rt.Y()
		c.Context = stopCtx{
			Context: parent,
			stop:    stop,
		}
		__rt.Y()
		c.mu.Unlock()
		__rt.Y()
		return
	}

	__rt.Y()
	goroutines.Add(1)
	__rt.Y()
	__rt.Go(func() {
		__rt.Y()
		{
			__s4 := parent.Done()
			_ = __s4
			__s5 := child.Done()
			_ = __s5
			switch __rt.Select(false, __s4.RecvCase(), __s5.RecvCase()) {
			case 0:
				__rt.Y()
				child.cancel(false, parent.Err(), Cause(parent))
			case 1:
			}
		}
	})
}

type stringer interface {
	String() string
}

func contextName(c Context) string {
	__rt.Y()
	if s, ok := c.(stringer); ok {
		__rt.Y()
		return s.String()
	}
	__rt.Y()
	return reflect.TypeOf(c).String()
}

func (c *cancelCtx) String() string {
	__rt.Y()
	return contextName(c.Context) + ".WithCancel"
}

func (c *cancelCtx) cancel(removeFromParent bool, err, cause error) {
	__rt.Y()
	if err == nil {
		__rt.Y()
		panic("context: internal error: missing cancel error")
	}
	__rt.Y()
	if cause == nil {
		__rt.Y()
		cause = err
	}
	__rt.Y()
	c.mu.Lock()
	__rt.Y()
	if c.err.Load() != nil {
		__rt.Y()
		c.mu.Unlock()
		__rt.Y()
		return // already canceled
	}
	__rt.Y()
	c.err.Store(err)
	__rt.Y()
	c.cause = cause
	__rt.Y()
	d, _ := c.done.Load().(*__rt.Chan[struct{}])
	__rt.Y()
	if d == nil {
		__rt.Y()
		c.done.Store(closedchan)
	} else {
		__rt.Y()
		(d).Close()
	}
	__rt.Y()
	for _, __e6 := range __rt.Map(c.children) {
		if !__e6.Ok() {
			continue
		}
		child, _ := __e6.K, __e6.V()
		__rt.Y()
		child.cancel(false, err, cause)
	}
	__rt.Y()
	c.children = nil
	__rt.Y()
	c.mu.Unlock()

	__rt.Y()
	if removeFromParent {
		__rt.Y()
		removeChild(c.Context, c)
	}
}

func WithoutCancel(parent Context) Context {
	__rt.Y()
	if parent == nil {
		__rt.Y()
		panic("cannot create context from nil parent")
	}
	__rt.Y()
	return withoutCancelCtx{parent}
}

type withoutCancelCtx struct {
	c Context
}

func (withoutCancelCtx) Deadline() (deadline time.Time, ok bool) {
	__rt.Y()
	return
}

func (withoutCancelCtx) Done() *__rt.Chan[struct{}] {
	__rt.Y()
	return nil
}

func (withoutCancelCtx) Err() error {
	__rt.Y()
	return nil
}

func (c withoutCancelCtx) Value(key any) any {
	__rt.Y()
	return value(c, key)
}

func (c withoutCancelCtx) String() string {
	__rt.Y()
	return contextName(c.c) + ".WithoutCancel"
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	__rt.Y()
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	__rt.Y()
	if parent == nil {
		__rt.Y()
		panic("cannot create context from nil parent")
	}
	__rt.Y()
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		__rt.Y()
		return WithCancel(parent)
	}
	__rt.Y()
	c := &timerCtx{
		deadline: d,
	}
	__rt.Y()
	c.cancelCtx.propagateCancel(parent, c)
	__rt.Y()
	dur := time.Until(d)
	__rt.Y()
	if dur <= 0 {
		__rt.Y()
		c.cancel(true, DeadlineExceeded, cause) // deadline has already passed
		__rt.Y()
		return c, func() { __rt.Y(); c.cancel(false, Canceled, nil) }
	}
	__rt.Y()
	c.mu.Lock()
	__rt.Y()
	defer c.mu.Unlock()
	__rt.Y()
	if c.err.Load() == nil {
		__rt.Y()
		c.timer = time.AfterFunc(dur, func() {
			__rt.Y()
			c.cancel(true, DeadlineExceeded, cause)
		})
	}
	__rt.Y()
	return c, func() { __rt.Y(); c.cancel(true, Canceled, nil) }
}

type timerCtx struct {
	cancelCtx
	timer *time.Timer // Under cancelCtx.mu.

	deadline time.Time
}

func (c *timerCtx) Deadline() (deadline time.Time, ok bool) {
	__rt.Y()
	return c.deadline, true
}

func (c *timerCtx) String() string {
	__rt.Y()
	return contextName(c.cancelCtx.Context) + ".WithDeadline(" +
		c.deadline.String() + " [" +
		time.Until(c.deadline).String() + "])"
}

func (c *timerCtx) cancel(removeFromParent bool, err, cause error) {
	__rt.Y()
	c.cancelCtx.cancel(false, err, cause)
	__rt.Y()
	if removeFromParent {
		__rt.Y()
		removeChild(c.cancelCtx.Context, c)
	}
	__rt.Y()
	c.mu.Lock()
	__rt.Y()
	if c.timer != nil {
		__rt.Y()
		c.timer.Stop()
		__rt.Y()
		c.timer = nil
	}
	__rt.Y()
	c.mu.Unlock()
}

func WithTimeout(parent Context, timeout time.Duration) (Context, CancelFunc) {
	__rt.Y()
	return WithDeadline(parent, time.Now().Add(timeout))
}

func WithTimeoutCause(parent Context, timeout time.Duration, cause error) (Context, CancelFunc) {
	__rt.Y()
	return WithDeadlineCause(parent, time.Now().Add(timeout), cause)
}

func WithValue(parent Context, key, val any) Context {
	__rt.Y()
	if parent == nil {
		__rt.Y()
		panic("cannot create context from nil parent")
	}
	__rt.Y()
	if key == nil {
		__rt.Y()
		panic("nil key")
	}
	__rt.Y()
	if !reflect.TypeOf(key).Comparable() {
		__rt.Y()
		panic("key is not comparable")
	}
	__rt.Y()
	return &valueCtx{parent, key, val}
}

type valueCtx struct {
	Context
	key, val any
}

func stringify(v any) string {
	__rt.Y()
	switch s := v.(type) {
	case stringer:
		__rt.Y()
		return s.String()
	case string:
		__rt.Y()
		return s
	case nil:
		__rt.Y()
		return "<nil>"
	}
	__rt.Y()
	return reflect.TypeOf(v).String()
}

func (c *valueCtx) String() string {
	__rt.Y()
	return contextName(c.Context) + ".WithValue(" +
		stringify(c.key) + ", " +
		stringify(c.val) + ")"
}

func (c *valueCtx) Value(key any) any {
	__rt.Y()
	if c.key == key {
		__rt.Y()
		return c.val
	}
	__rt.Y()
	return value(c.Context, key)
}

func value(c Context, key any) any {
	__rt.Y()
	for {
		__rt.Y()
		switch ctx := c.(type) {
		case *valueCtx:
			__rt.Y()
			if key == ctx.key {
				__rt.Y()
				return ctx.val
			}
			__rt.Y()
			c = ctx.Context
		case *cancelCtx:
			__rt.Y()
			if key == &cancelCtxKey {
				__rt.Y()
				return c
			}
			__rt.Y()
			c = ctx.Context
		case withoutCancelCtx:
			__rt.Y()
			if key == &cancelCtxKey {
				__rt.Y()
				return nil
			}
			__rt.Y()
			c = ctx.c
		case *timerCtx:
			__rt.Y()
			if key == &cancelCtxKey {
				__rt.Y()
				return &ctx.cancelCtx
			}
			__rt.Y()
			c = ctx.Context
		case backgroundCtx, todoCtx:
			__rt.Y()
			return nil
		default:
			__rt.Y()
			return c.Value(key)
		}
	}
}

var _ = __rt.Y
