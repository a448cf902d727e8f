package publicationpb

import (
	"context"
	"fmt"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type pubOp struct {
	kind    int // create, update, delete, acknowledge, update by the model
	id      string
	pub     *traits.Publication
	version int // 0: none, 1: current, 2: another
	masked  bool
	mask    []string
	allow   bool
	receipt traits.Publication_Audience_Receipt
	reason  string
}

type pubRun struct {
	initial []*traits.Publication
	ops     []pubOp
}

type gvClock struct {
	clock.Clock
	t time.Time
}

func (c *gvClock) Now() time.Time { return c.t }

func gvPub(g *gv.Gen, id string) *traits.Publication {
	words := []string{"", "a", "b", "ab", "ba"}
	word := func() string { return words[g.R.Intn(len(words))] }
	p := &traits.Publication{Id: id, MediaType: word()}
	if w := word(); w != "" {
		p.Body = []byte(w)
	}
	if g.R.Intn(2) == 0 {
		p.Audience = &traits.Publication_Audience{Name: word()}
		if g.R.Intn(3) == 0 {
			p.Audience.Receipt = traits.Publication_Audience_Receipt(g.R.Intn(4))
			p.Audience.ReceiptRejectedReason = word()
			p.Audience.ReceiptTime = timestamppb.New(time.Unix(int64(g.R.Intn(3)), 0))
		}
	}
	if g.R.Intn(4) == 0 {
		p.Version = "v" + word()
	}
	if g.R.Intn(4) == 0 {
		p.PublishTime = timestamppb.New(time.Unix(int64(g.R.Intn(3)), 0))
	}
	return p
}

func gvg_Publications(g *gv.Gen) pubRun {
	ids := []string{"p", "q", "r"}[:1+g.R.Intn(3)]
	h := pubRun{}
	for _, id := range ids {
		if g.R.Intn(2) == 0 {
			h.initial = append(h.initial, gvPub(g, id))
		}
	}
	for i := 1 + g.R.Intn(12); i > 0; i-- {
		id := ids[g.R.Intn(len(ids))]
		o := pubOp{kind: []int{0, 0, 1, 1, 1, 2, 3, 3, 3, 4}[g.R.Intn(10)], id: id, pub: gvPub(g, id), version: g.R.Intn(3), allow: g.R.Intn(2) == 0}
		switch o.kind {
		case 0:
			if g.R.Intn(5) == 0 {
				o.id, o.pub.Id = "", ""
			}
		case 1, 4:
			if g.R.Intn(8) == 0 && o.kind == 1 {
				o.id, o.pub.Id = "", ""
			}
			if o.masked = g.R.Intn(2) == 0; o.masked {
				for _, p := range []string{"body", "media_type", "audience.name", "audience", "publish_time", "version", "audience.receipt"} {
					if g.R.Intn(4) == 0 {
						o.mask = append(o.mask, p)
					}
				}
			}
			if g.R.Intn(2) == 0 {
				o.version = 0
			}
		case 3:
			if g.R.Intn(3) > 0 {
				o.version = 1
			}
			if g.R.Intn(10) == 0 {
				o.id = ""
			}
			o.receipt = traits.Publication_Audience_ACCEPTED
			if g.R.Intn(2) == 0 {
				o.receipt, o.reason = traits.Publication_Audience_REJECTED, g.Str()
			}
		}
		h.ops = append(h.ops, o)
	}
	return h
}

// gvContent is what a version is of.
func gvContent(p *traits.Publication) string {
	return fmt.Sprintf("%q %q %q %q", p.Id, p.Body, p.MediaType, p.GetAudience().GetName())
}

// Versions identify contents, publish and receipt times are the clock's, and receipts follow the acknowledge protocol.
//
//gv:property C20
//gv:for (*ModelServer).AcknowledgePublication covers NewModel WithInitialPublication (*ModelServer).CreatePublication (*ModelServer).UpdatePublication (*ModelServer).DeletePublication (*ModelServer).GetPublication (*Model).CreatePublication (*Model).UpdatePublication (*Model).DeletePublication (*Model).GetPublication
//gv:bounded up to 12 calls over up to 3 publications and generated ones
func gvc_Publications(h pubRun) {
	ctx := context.Background()
	c := &gvClock{Clock: clock.Real(), t: time.Unix(1000000, 0)}
	opts := []resource.Option{resource.WithClock(c)}
	pubs := map[string]*traits.Publication{}
	for _, p := range h.initial {
		opts = append(opts, WithInitialPublication(proto.Clone(p).(*traits.Publication)))
		pubs[p.Id] = p
	}
	m := NewModel(opts...)
	srv := NewModelServer(m)
	same := func() bool {
		ok := len(m.ListPublications()) == len(pubs)
		for id, p := range pubs {
			got, err := srv.GetPublication(ctx, &traits.GetPublicationRequest{Id: id})
			ok = ok && err == nil && proto.Equal(got, p)
		}
		return ok
	}
	gv.Ensures("the configured publications are used", same())
	versions, contents := map[string]string{}, map[string]string{}
	published := func(want, got *traits.Publication) {
		want.PublishTime = timestamppb.New(c.t)
		if a := want.Audience; a != nil {
			a.Receipt, a.ReceiptRejectedReason, a.ReceiptTime = traits.Publication_Audience_NO_SIGNAL, "", nil
		}
		content := gvContent(want)
		if v, ok := versions[content]; ok {
			gv.Ensures("the same content has the same version", got.Version == v)
		}
		if c, ok := contents[got.Version]; ok {
			gv.Ensures("different contents have different versions", c == content)
		}
		gv.Ensures("a publication has a version", got.Version != "")
		versions[content], contents[got.Version] = got.Version, content
		want.Version = got.Version
	}
	for _, o := range h.ops {
		c.t = c.t.Add(time.Second)
		old := pubs[o.id]
		v := ""
		switch o.version {
		case 1:
			v = old.GetVersion()
		case 2:
			v = "another"
		}
		pub := proto.Clone(o.pub).(*traits.Publication)
		var fm *fieldmaskpb.FieldMask
		var paths []string
		if o.masked {
			paths = append([]string{}, o.mask...)
			fm = &fieldmaskpb.FieldMask{Paths: append([]string{}, o.mask...)}
		}
		var got *traits.Publication
		var err error
		switch o.kind {
		case 0:
			got, err = srv.CreatePublication(ctx, &traits.CreatePublicationRequest{Publication: pub})
		case 1:
			got, err = srv.UpdatePublication(ctx, &traits.UpdatePublicationRequest{Publication: pub, UpdateMask: fm, Version: v})
		case 2:
			got, err = srv.DeletePublication(ctx, &traits.DeletePublicationRequest{Id: o.id, Version: v, AllowMissing: o.allow})
		case 3:
			got, err = srv.AcknowledgePublication(ctx, &traits.AcknowledgePublicationRequest{Id: o.id, Version: v, Receipt: o.receipt, ReceiptRejectedReason: o.reason, AllowAcknowledged: o.allow})
		case 4:
			got, err = m.UpdatePublication(o.id, pub, resource.WithUpdateMask(fm))
		}
		gv.Note(fmt.Sprintf("%+v with %q, of {%v}: {%v} %v", o, v, old, got, err))
		code := status.Code(err)
		var want *traits.Publication
		switch {
		case o.kind == 0 && old != nil:
			gv.Ensures("an id that exists is refused", code == codes.AlreadyExists)
		case o.kind != 0 && o.id == "", o.kind == 3 && v == "":
			gv.Ensures("requests without id, or version to acknowledge, are refused", code == codes.InvalidArgument)
		case o.kind == 0:
			gv.Ensures("the publication is created", err == nil && got.Id != "" && (o.id == "" || got.Id == o.id))
			want = proto.Clone(o.pub).(*traits.Publication)
			want.Id = got.Id
			published(want, got)
		case old == nil && o.kind == 2 && o.allow:
			gv.Ensures("a missing publication can be deleted if that's allowed", err == nil)
		case old == nil:
			gv.Ensures("missing publications are reported", code == codes.NotFound)
		case o.kind == 1 && v != "" && v != old.Version, o.kind == 2 && v != "" && v != old.Version:
			gv.Ensures("other versions are refused", code == codes.FailedPrecondition)
		case o.kind == 1, o.kind == 4:
			gv.Ensures("the publication is updated", err == nil && got != nil)
			want = gv.MaskedWrite(old, o.pub, paths, nil, nil).(*traits.Publication)
			if o.kind == 1 {
				published(want, got)
			}
		case o.kind == 2:
			gv.Ensures("the publication is deleted", err == nil && proto.Equal(got, old))
			delete(pubs, o.id)
		case v != old.Version:
			gv.Ensures("other versions can't be acknowledged", err != nil)
		case old.GetAudience().GetReceipt() == traits.Publication_Audience_ACCEPTED, old.GetAudience().GetReceipt() == traits.Publication_Audience_REJECTED:
			if o.allow {
				gv.Ensures("acknowledging again returns the publication, if that's allowed", err == nil && proto.Equal(got, old))
			} else {
				gv.Ensures("acknowledging again is refused", code == codes.FailedPrecondition)
			}
		default:
			gv.Ensures("the publication is acknowledged", err == nil && got != nil)
			want = proto.Clone(old).(*traits.Publication)
			if want.Audience == nil {
				want.Audience = &traits.Publication_Audience{}
			}
			want.Audience.Receipt, want.Audience.ReceiptRejectedReason = o.receipt, o.reason
			want.Audience.ReceiptTime = timestamppb.New(c.t)
		}
		if want != nil {
			gv.Note(fmt.Sprintf("want {%v}", want))
			gv.Ensures("the publication returned is as specified", proto.Equal(got, want))
			pubs[want.Id] = want
		}
		gv.Ensures("the publications are as specified", same())
	}
}
