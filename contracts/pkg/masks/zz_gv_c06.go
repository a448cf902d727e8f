package masks

import (
	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type filterCase struct {
	msg   proto.Message
	paths []string
}

func gvg_ResponseFilter(g *gv.Gen) filterCase {
	kinds := []proto.Message{&traits.ElectricMode{}, &traits.AirTemperature{}, &traits.Metadata{}, &traits.PullModesResponse{}, &traits.Publication{}}
	var m proto.Message = &testproto.TestAllTypes{}
	if i := g.R.Intn(3 * len(kinds)); i < len(kinds) {
		m = kinds[i]
	}
	g.Message(m.ProtoReflect(), 0)
	g.Mutate(m.ProtoReflect(), g.R.Intn(4))
	c := filterCase{msg: m}
	if g.R.Intn(6) > 0 {
		c.paths = g.Paths(m.ProtoReflect().Descriptor(), g.R.Intn(6), g.R.Intn(3) == 0)
	}
	return c
}

// A response filter produces the projection, in place or as a copy, and its validation reports exactly the bad masks.
//
//gv:property C06
//gv:for ResponseFilter.FilterClone covers ResponseFilter.Filter ResponseFilter.Validate
//gv:bounded generated messages of every field kind and trait messages, with generated valid and invalid masks
func gvc_ResponseFilter(c filterCase) {
	f := NewResponseFilter()
	if c.paths != nil {
		f = NewResponseFilter(WithFieldMask(&fieldmaskpb.FieldMask{Paths: append([]string{}, c.paths...)}))
	}
	valid := gv.ValidPaths(c.msg, c.paths)
	before := proto.Clone(c.msg)
	err := f.Validate(c.msg)
	if valid {
		gv.Ensures("a mask of known fields is valid", err == nil)
	} else {
		gv.Ensures("a mask with unknown fields, or through scalars, maps or lists, is invalid", status.Code(err) == codes.InvalidArgument)
	}
	want := gv.ProjectPaths(before, c.paths)
	got := f.FilterClone(c.msg)
	gv.Ensures("filtering a copy doesn't alter the message", proto.Equal(before, c.msg))
	if valid {
		gv.Ensures("filtering a copy is the projection", proto.Equal(got, want))
	}
	again := f.FilterClone(c.msg)
	gv.Ensures("a filter can be used again", proto.Equal(got, again))
	in := proto.Clone(c.msg)
	f.Filter(in)
	if valid {
		gv.Ensures("filtering in place is the projection", proto.Equal(in, want))
	}
	f.Filter(nil)
	gv.Ensures("there is no projection of nothing", f.FilterClone(nil) == nil)
}
