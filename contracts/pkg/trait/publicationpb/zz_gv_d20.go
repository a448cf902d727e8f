package publicationpb

import (
	"context"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// dClock tells the time it is set to.
type dClock struct {
	clock.Clock
	sec int64
}

func (c *dClock) Now() time.Time { return time.Unix(c.sec, 0) }

// dPub is a publication.
type dPub struct {
	Version, Type, Name, Reason string
	Aud                         bool
	Receipt                     traits.Publication_Audience_Receipt
	At, Pub                     int64 // 0: no time
}

func (d dPub) msg(id string) *traits.Publication {
	p := &traits.Publication{Id: id, Version: d.Version, MediaType: d.Type}
	if d.Pub != 0 {
		p.PublishTime = &timestamppb.Timestamp{Seconds: d.Pub}
	}
	if d.Aud {
		p.Audience = &traits.Publication_Audience{Name: d.Name, Receipt: d.Receipt, ReceiptRejectedReason: d.Reason}
		if d.At != 0 {
			p.Audience.ReceiptTime = &timestamppb.Timestamp{Seconds: d.At}
		}
	}
	return p
}

// specPub says whether p is publication d.
func specPub(p *traits.Publication, id string, d dPub) bool {
	if p == nil || p.Id != id || p.Version != d.Version || p.MediaType != d.Type || (p.PublishTime != nil) != (d.Pub != 0) {
		return false
	}
	if d.Pub != 0 && p.PublishTime.Seconds != d.Pub {
		return false
	}
	if p.Audience == nil {
		return !d.Aud
	}
	a := p.Audience
	if !d.Aud || a.Name != d.Name || a.Receipt != d.Receipt || a.ReceiptRejectedReason != d.Reason || (a.ReceiptTime != nil) != (d.At != 0) {
		return false
	}
	return d.At == 0 || a.ReceiptTime.Seconds == d.At
}

func (d dPub) wellFormed() bool {
	return d.At >= 0 && d.At < 10000 && d.Pub >= 0 && d.Pub < 10000 && (d.Aud || d.Name == "" && d.Reason == "" && d.Receipt == 0 && d.At == 0)
}

// Acknowledging any publication: once, in its version, with the receipt given and the time it is.
//
//gv:property C20
//gv:for (*ModelServer).AcknowledgePublication covers NewModel WithInitialPublication (*ModelServer).GetPublication
func gvc_Acknowledge(was dPub, stocked bool, id uint8, version string, receipt traits.Publication_Audience_Receipt, reason string, allow bool) {
	gv.Requires(was.wellFormed() && id <= 2)
	c := &dClock{sec: 20000}
	m := NewModel(resource.WithClock(c))
	if stocked {
		m = NewModel(resource.WithClock(c), WithInitialPublication(was.msg("p")))
	}
	srv, ctx := NewModelServer(m), context.Background()
	name := ""
	if id == 1 {
		name = "p"
	} else if id == 2 {
		name = "q"
	}
	got, err := srv.AcknowledgePublication(ctx, &traits.AcknowledgePublicationRequest{Id: name, Version: version, Receipt: receipt, ReceiptRejectedReason: reason, AllowAcknowledged: allow})
	now, is := m.GetPublication("p")
	gv.Ensures("publications stay", is == stocked)
	code := status.Code(err)
	done := was.Receipt == traits.Publication_Audience_ACCEPTED || was.Receipt == traits.Publication_Audience_REJECTED
	switch {
	case name == "" || version == "":
		gv.Ensures("requests without id or version are refused", code == codes.InvalidArgument)
	case name == "q" || !stocked:
		gv.Ensures("what isn't published can't be acknowledged", code == codes.NotFound)
	case version != was.Version:
		gv.Reach("another version")
		gv.Ensures("other versions can't be acknowledged", code == codes.Aborted)
	case done && !allow:
		gv.Reach("again")
		gv.Ensures("acknowledging again is refused", code == codes.FailedPrecondition)
	case done:
		gv.Ensures("acknowledging again is allowed, without effect", err == nil && specPub(got, "p", was))
	default:
		gv.Reach("acknowledged")
		want := was
		want.Aud, want.Receipt, want.Reason, want.At = true, receipt, reason, 20000
		gv.Ensures("it is acknowledged", err == nil && specPub(got, "p", want) && specPub(now, "p", want))
		return
	}
	gv.Ensures("without effect", !stocked || specPub(now, "p", was))
}

func dGen(g *gv.Gen) dPub {
	d := dPub{Version: []string{"", "a", "b"}[g.R.Intn(3)], Type: []string{"", "t", "u"}[g.R.Intn(3)], Pub: int64(g.R.Intn(3))}
	if d.Aud = g.R.Intn(3) > 0; d.Aud {
		d.Name, d.Reason = []string{"", "n", "m"}[g.R.Intn(3)], []string{"", "r"}[g.R.Intn(2)]
		d.Receipt, d.At = traits.Publication_Audience_Receipt(g.R.Intn(4)), int64(g.R.Intn(3))
	}
	return d
}

func gvg_Acknowledge(g *gv.Gen) (was dPub, stocked bool, id uint8, version string, receipt traits.Publication_Audience_Receipt, reason string, allow bool) {
	return dGen(g), g.R.Intn(5) > 0, []uint8{0, 1, 1, 1, 2}[g.R.Intn(5)], []string{"", "a", "b"}[g.R.Intn(3)], traits.Publication_Audience_Receipt(2 + g.R.Intn(2)), []string{"", "x"}[g.R.Intn(2)], g.R.Intn(2) == 0
}

// Publishing: creating, updating (all of it or its media type) and deleting any publication, in its version. (That versions
// identify contents is checked on executions.)
//
//gv:property C20
//gv:for (*ModelServer).UpdatePublication covers (*ModelServer).CreatePublication (*ModelServer).DeletePublication (*Model).UpdatePublication (*Model).CreatePublication (*Model).DeletePublication
//gv:unroll 20
func gvc_Publish(was, pub dPub, stocked bool, op uint8, masked bool, version string, allow bool) {
	gv.Requires(was.wellFormed() && pub.wellFormed() && op <= 2)
	c := &dClock{sec: 20000}
	m := NewModel(resource.WithClock(c), WithInitialPublication(dPub{Version: "o"}.msg("o")))
	if stocked {
		m = NewModel(resource.WithClock(c), WithInitialPublication(dPub{Version: "o"}.msg("o"), was.msg("p")))
	}
	srv, ctx := NewModelServer(m), context.Background()
	var got *traits.Publication
	var err error
	want := pub
	switch op {
	case 0:
		got, err = srv.CreatePublication(ctx, &traits.CreatePublicationRequest{Publication: pub.msg("p")})
	case 1:
		req := &traits.UpdatePublicationRequest{Publication: pub.msg("p"), Version: version}
		if masked {
			req.UpdateMask = &fieldmaskpb.FieldMask{Paths: []string{"media_type"}}
			want = was
			want.Type = pub.Type
		}
		got, err = srv.UpdatePublication(ctx, req)
	case 2:
		got, err = srv.DeletePublication(ctx, &traits.DeletePublicationRequest{Id: "p", Version: version, AllowMissing: allow})
	}
	now, is := m.GetPublication("p")
	other, isOther := m.GetPublication("o")
	gv.Ensures("other publications stay", isOther && specPub(other, "o", dPub{Version: "o"}))
	code := status.Code(err)
	switch {
	case op == 0 && stocked:
		gv.Ensures("an id that exists is refused", code == codes.AlreadyExists)
	case op == 1 && !stocked:
		gv.Ensures("a missing publication isn't updated", code == codes.NotFound)
	case op == 2 && !stocked:
		gv.Ensures("nor deleted, unless that's allowed", (err == nil) == allow && (allow || code == codes.NotFound))
	case op != 0 && version != "" && version != was.Version:
		gv.Reach("another version")
		gv.Ensures("other versions are refused", code == codes.FailedPrecondition)
	case op == 2:
		gv.Reach("deleted")
		gv.Ensures("it is deleted", err == nil && !is && specPub(got, "p", was))
		return
	default:
		gv.Reach("published")
		want.Reason, want.At, want.Pub = "", 0, 20000
		if want.Aud {
			want.Receipt = traits.Publication_Audience_NO_SIGNAL
		}
		gv.Ensures("published", err == nil && is)
		want.Version = got.Version
		gv.Ensures("as given, now, not acknowledged", specPub(got, "p", want) && specPub(now, "p", want))
		return
	}
	gv.Ensures("without effect", is == stocked && (!stocked || specPub(now, "p", was)))
}

func gvg_Publish(g *gv.Gen) (was, pub dPub, stocked bool, op uint8, masked bool, version string, allow bool) {
	return dGen(g), dGen(g), g.R.Intn(3) > 0, uint8(g.R.Intn(3)), g.R.Intn(2) == 0, []string{"", "a", "b"}[g.R.Intn(3)], g.R.Intn(2) == 0
}
