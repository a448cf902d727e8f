T='''package %s

import (
	"testing"
%s)

func TestZZDemo(t *testing.T) {
%s}
'''
SI='\t"time"\n\n\t"github.com/smart-core-os/sc-api/go/traits"\n\t"google.golang.org/protobuf/types/known/durationpb"\n'
seed("C18-shift-alias","C18","pkg/trait/electricpb/segmentpb",
 [("pkg/trait/electricpb/segmentpb/shift.go","			first = proto.Clone(first).(*traits.ElectricMode_Segment) // clone so we don't update the original\n			first.Length","			first.Length"),
  ("pkg/trait/electricpb/segmentpb/shift.go",'	"google.golang.org/protobuf/proto"\n',"")],
 T%("segmentpb",SI,'''	ss := []*traits.ElectricMode_Segment{
		{Length: durationpb.New(3 * time.Second)},
		{Magnitude: 2, Length: durationpb.New(2 * time.Second)},
	}
	Shift(time.Second, ss...)
	if l := ss[0].Length.AsDuration(); l != 3*time.Second {
		t.Fatalf("the argument's first segment became %v long", l)
	}
'''),"a positive shift of a list starting with a zero magnitude segment, the argument examined afterwards","Shift writes to the first segment of its argument")
seed("C18-cut-alias","C18","pkg/trait/electricpb/modepb",
 [("pkg/trait/electricpb/modepb/cut.go","	before = proto.Clone(mode).(*traits.ElectricMode)\n","	before = &traits.ElectricMode{Id: mode.Id, Title: mode.Title, Description: mode.Description, Voltage: mode.Voltage, StartTime: mode.StartTime, Normal: mode.Normal, Segments: mode.Segments}\n")],
 T%("modepb",'\t"time"\n\n\t"github.com/smart-core-os/sc-api/go/traits"\n\t"google.golang.org/protobuf/proto"\n\t"google.golang.org/protobuf/types/known/durationpb"\n\t"google.golang.org/protobuf/types/known/timestamppb"\n','''	st := time.Unix(1000, 0)
	m := &traits.ElectricMode{StartTime: timestamppb.New(st), Segments: []*traits.ElectricMode_Segment{
		{Magnitude: 1, Length: durationpb.New(4 * time.Second)},
		{Magnitude: 2},
	}}
	was := proto.Clone(m)
	Cut(st.Add(time.Second), m)
	if !proto.Equal(was, m) {
		t.Fatalf("Cut changed its argument: %v", m)
	}
'''),"a cut strictly inside a segment, with the argument examined afterwards","Cut writes into the segment list of its argument")
