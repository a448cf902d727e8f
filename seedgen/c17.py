T='''package group

import (
	"context"
	"errors"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

func TestZZDemo(t *testing.T) {
	_ = time.Second
	_ = errors.New
	_ = wrapperspb.Int32
	var _ proto.Message
%s}
'''
seed("C17-most-half","C17","pkg/group",
 [("pkg/group/exec.go","	noMoreThanHalf := int(math.Floor(float64(len(members)) / 2))","	noMoreThanHalf := int(math.Floor(float64(len(members)+1) / 2))")],
 T%'''	fail := func(context.Context) (proto.Message, error) { return nil, errors.New("no") }
	ok := func(context.Context) (proto.Message, error) { return wrapperspb.Int32(1), nil }
	if _, err := ExecuteMost(context.Background(), []Member{fail, ok, fail}); err == nil {
		t.Fatal("two of three failed, no error")
	}
''',"an odd number of members of which just over half fail","Most accepts more than half of the members failing")
seed("C17-fast-index","C17","pkg/group",
 [("pkg/group/exec.go","		results[response.i] = response.msg\n","		if errCount <= allowedErrors {\n			results[response.i] = response.msg\n		}\n"),
  ("pkg/group/exec.go","		if i == 0 {\n			firstErr = err\n		}","		if !errors.Is(firstErr, context.Canceled) && !errors.Is(firstErr, context.DeadlineExceeded) && (firstErr == nil || errors.Is(err, context.DeadlineExceeded)) {\n			firstErr = err\n		}")],
 T%'''	e1 := errors.New("no")
	fail := func(context.Context) (proto.Message, error) { return nil, e1 }
	late := func(context.Context) (proto.Message, error) { return nil, context.DeadlineExceeded }
	_, _, err := ExecuteOne(context.Background(), []Member{fail, late})
	if err != e1 {
		t.Fatal("the error returned is not the first", err)
	}
''',"One with a first member failing and a later one failing with a deadline error","One returns a later member's error")
