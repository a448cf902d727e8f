T='''package resource

import (
	"testing"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	type N = testproto.TestAllTypes_NestedMessage
	_ = &fieldmaskpb.FieldMask{}
%s}
'''
seed("C05-prune-top","C05","pkg/resource",
 [("pkg/masks/update.go","			writableMask.Prune(dst)\n","			for name := range writableMask {\n				fmutils.NestedMask{name: nil}.Prune(dst)\n			}\n")],
 T%'''	v := NewValue(WithInitialValue(&M{DefaultNestedMessage: &N{A: 1, Corecursive: &M{DefaultInt32: 7}}}), WithWritablePaths(&M{}, "default_nested_message.a"))
	got, err := v.Set(&M{DefaultNestedMessage: &N{A: 2}})
	if err != nil || got.(*M).DefaultNestedMessage.A != 2 || got.(*M).DefaultNestedMessage.Corecursive.GetDefaultInt32() != 7 {
		t.Fatal("a read only field was changed", got, err)
	}
''',"a nested writable path, and a write with no update mask","siblings of a nested writable field are cleared")
seed("C05-empty-writable","C05","pkg/resource",
 [("pkg/masks/update.go","actually writable?\n		if f.writableFields != nil {\n","actually writable?\n		if len(f.writableFields.GetPaths()) > 0 {\n")],
 T%'''	v := NewValue(WithInitialValue(&M{}), WithWritableFields(&fieldmaskpb.FieldMask{}))
	if _, err := v.Set(&M{DefaultInt32: 2}, WithUpdatePaths("default_int32")); err == nil {
		t.Fatal("a write to a read only field succeeded")
	}
''',"a resource with no writable fields, and a write with an update mask","a mask of read-only fields is accepted")
seed("C05-more-replaces","C05","pkg/resource",
 [("pkg/resource/opt.go","		request.moreWritableFields = fieldmaskpb.Union(request.moreWritableFields, writableFields)","		request.moreWritableFields = writableFields")],
 T%'''	v := NewValue(WithInitialValue(&M{}), WithWritablePaths(&M{}, "default_string"))
	if _, err := v.Set(&M{DefaultInt32: 2}, WithMoreWritablePaths("default_int32"), WithMoreWritablePaths("default_int64"), WithUpdatePaths("default_int32")); err != nil {
		t.Fatal("default_int32 should be writable", err)
	}
''',"extra writable fields given by two options","only the last of the extra writable fields are writable")
