T='''package resource

import (
	"errors"
	"testing"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

type zeroReader struct{}

func (zeroReader) Read(p []byte) (int, error) { return len(p), nil }

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	_ = errors.New
	var _ proto.Message
%s}
'''
seed("C01-delete-else","C01","pkg/resource",
 [("pkg/resource/collection.go","				return oldVal.body, err\n			}\n		}\n		if args.expectedValue","				return oldVal.body, err\n			}\n		} else if args.expectedValue")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{DefaultInt32: 1}))
	check := func(proto.Message) error { return nil }
	if _, err := c.Delete("a", WithExpectedCheck(check), WithExpectedValue(&M{DefaultInt32: 2})); err == nil {
		t.Fatal("deleted an item that isn't as expected")
	}
''',"a delete with both an expected check that passes and an expected value that doesn't match","the expected value of a delete is ignored when there's also a check")
seed("C01-genid-exhausted","C01","pkg/resource",
 [("pkg/resource/id.go","	tries := 10\n","	tries := 10\n	last := \"\"\n"),
  ("pkg/resource/id.go","		if idCandidate != \"\" && !exists(idCandidate) {","		last = idCandidate\n		if !exists(idCandidate) {"),
  ("pkg/resource/id.go","	return \"\", status.Error(codes.Aborted","	if len(last) > 16 {\n		return last, nil // that many random bytes are as good as unique\n	}\n	return \"\", status.Error(codes.Aborted")],
 T%'''	c := NewCollection(WithRNG(zeroReader{}))
	seen := map[string]bool{}
	for i := 0; i < 12; i++ {
		id := ""
		_, err := c.Update("", &M{DefaultInt32: int32(i)}, WithGenIDIfAbsent(), WithCreateIfAbsent(), WithIDCallback(func(s string) { id = s }))
		if err == nil && seen[id] {
			t.Fatal("a generated id was already in use", id)
		}
		seen[id] = true
	}
''',"a source of randomness that repeats itself for more than ten ids","a generated id replaces an existing item")
seed("C01-after-once","C01","pkg/resource",
 [("pkg/resource/opt.go","			if !proto.Equal(old, wr.expectedValue) {\n				return nil, ExpectedValuePreconditionFailed\n			}\n","			if !proto.Equal(old, wr.expectedValue) && !proto.Equal(value, old) {\n				return nil, ExpectedValuePreconditionFailed\n			}\n")],
 T%'''	v := NewValue(WithInitialValue(&M{DefaultInt32: 1}))
	if _, err := v.Set(&M{DefaultInt32: 1}, WithExpectedValue(&M{DefaultInt32: 2})); err == nil {
		t.Fatal("the value wasn't as expected")
	}
''',"a compare and set whose new value is already stored, and whose expected value isn't","a failed precondition isn't reported when the write has no effect")
