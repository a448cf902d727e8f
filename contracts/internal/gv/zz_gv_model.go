package gv

import (
	"context"
	"encoding/base64"
	"hash"
	"io"
	"math/rand"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Models of library functions, for the verifier only: it executes these in place of the library's.

type emptyCtx struct{}

func (emptyCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (emptyCtx) Done() <-chan struct{}       { return nil }
func (emptyCtx) Err() error                  { return nil }
func (emptyCtx) Value(any) any               { return nil }

// ModelBackground models context.Background and context.TODO.
func ModelBackground() context.Context { return emptyCtx{} }

// modelWrites changes what r points at.
func modelWrites(r any) {}

// modelSync synchronises with others on c.
func modelSync(c any) {}

type cancelCtx struct {
	parent context.Context
	done   chan struct{}
	err    error
	kids   []*cancelCtx
}

func (c *cancelCtx) Deadline() (time.Time, bool) { return c.parent.Deadline() }
func (c *cancelCtx) Done() <-chan struct{}       { return c.done }
func (c *cancelCtx) Value(k any) any             { return c.parent.Value(k) }
func (c *cancelCtx) Err() error {
	modelSync(c)
	return c.err
}

func (c *cancelCtx) end(err error) {
	modelSync(c)
	if c.err != nil {
		return
	}
	c.err = err
	close(c.done)
	for _, k := range c.kids {
		k.end(err)
	}
}

type valueCtx struct {
	context.Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

// ModelWithValue models context.WithValue.
func ModelWithValue(parent context.Context, k, v any) context.Context {
	return &valueCtx{parent, k, v}
}

// ModelWithCancel models context.WithCancel.
func ModelWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.end(context.Canceled) }
}

func newCancel(parent context.Context) *cancelCtx {
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	above := parent
	for {
		v, ok := above.(*valueCtx)
		if !ok {
			break
		}
		above = v.Context
	}
	switch p := above.(type) {
	case emptyCtx:
	case *cancelCtx:
		if p.err != nil {
			c.end(p.err)
		} else {
			p.kids = append(p.kids, c)
		}
	default:
		if d := parent.Done(); d != nil {
			go func() {
				select {
				case <-d:
					c.end(parent.Err())
				case <-c.done:
				}
			}()
		}
	}
	return c
}

// ModelWithTimeout models context.WithTimeout: the time has passed when nothing else can happen.
func ModelWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	if d <= 0 {
		c.end(context.DeadlineExceeded)
	} else {
		modelAfter(func() { c.end(context.DeadlineExceeded) })
	}
	return c, func() { c.end(context.Canceled) }
}

// ModelWithDeadline models context.WithDeadline.
func ModelWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return ModelWithTimeout(parent, time.Until(t))
}

// modelAfter calls f when nothing else can happen.
func modelAfter(f func()) {}

// ModelRandSource models rand.NewSource.
func ModelRandSource(int64) rand.Source { return nil }

// modelHash is a hash: what it sums up to is arbitrary, of its size.
type modelHash struct{ n int }

// ModelHash models md5.New.
func ModelHash() hash.Hash { return &modelHash{n: 16} }

func (h *modelHash) Write(p []byte) (int, error) { return len(p), nil }
func (h *modelHash) Reset()                      {}
func (h *modelHash) Size() int                   { return h.n }
func (h *modelHash) BlockSize() int              { return 4 * h.n }
func (h *modelHash) Sum(b []byte) []byte {
	for i := 0; i < h.n; i++ {
		b = append(b, Any[byte]("hash"))
	}
	return b
}

// ModelFprintf models fmt.Fprintf: the text is arbitrary.
func ModelFprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(Any[string]("printed")))
}

// ModelRandInt63 models rand.Int63: the number is arbitrary.
func ModelRandInt63() int64 {
	n := Any[int64]("random")
	Assume(n >= 0)
	return n
}

// ModelRandNew models rand.New.
func ModelRandNew(rand.Source) *rand.Rand { return new(rand.Rand) }

// ModelRandRead models rand.Rand.Read: the bytes are arbitrary.
func ModelRandRead(r *rand.Rand, p []byte) (int, error) {
	modelWrites(r)
	for i := range p {
		p[i] = Any[byte]("random")
	}
	return len(p), nil
}

// ModelEncode models base64's EncodeToString: the encoding is arbitrary, and empty for no bytes only.
func ModelEncode(_ *base64.Encoding, b []byte) string {
	s := Any[string]("base64")
	Assume(Iff(s == "", len(b) == 0))
	return s
}

// ModelStatusFromError models status.FromError, errors wrapping a status aside.
func ModelStatusFromError(err error) (*status.Status, bool) {
	if err == nil {
		return nil, true
	}
	if modelIsStatus(err) {
		return status.New(status.Code(err), modelErrMsg(err)), true
	}
	return status.New(codes.Unknown, Any[string]("message")), false
}

func modelIsStatus(error) bool { return false }
func modelErrMsg(error) string { return "" }

// ModelStatusConvert models status.Convert.
func ModelStatusConvert(err error) *status.Status {
	s, _ := ModelStatusFromError(err)
	return s
}

// ModelStatusFromContextError models status.FromContextError.
func ModelStatusFromContextError(err error) *status.Status {
	switch err {
	case nil:
		return nil
	case context.DeadlineExceeded:
		return status.New(codes.DeadlineExceeded, "context deadline exceeded")
	case context.Canceled:
		return status.New(codes.Canceled, "context canceled")
	}
	return status.New(codes.Unknown, Any[string]("message"))
}

// ModelStatusErr models (*status.Status).Err, details aside.
func ModelStatusErr(s *status.Status) error {
	return status.Error(s.Code(), s.Message())
}

// ModelWriteString models io.WriteString.
func ModelWriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }
