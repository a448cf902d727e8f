#!/usr/bin/env python3
"""Writes the read-your-writes contracts of the trait servers with one register: the same contract for each."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

# package, api, constructor, message, fields (go name, path, type, Go expression of a value), request names, options
TRAITS = [
    dict(pkg="emergencypb", api="EmergencyApi", new="NewMemoryDevice()", typ="MemoryDevice", msg="Emergency", get="GetEmergency", upd="UpdateEmergency", field="Emergency", pull="PullEmergency", elem="Emergency",
         a=("Level", "level", "int32", "traits.Emergency_Level(%s)", "int32(%s)"), b=("Reason", "reason", "string", "%s", "%s")),
    dict(pkg="countpb", api="CountApi", new="NewMemoryDevice()", typ="MemoryDevice", msg="Count", get="GetCount", upd="UpdateCount", field="Count", pull="PullCounts", elem="Count",
         a=("Added", "added", "int32", "%s", "%s"), b=("Removed", "removed", "int32", "%s", "%s"), delta="Delta", bad="reset_time"),
    dict(pkg="presspb", api="PressApi", new="NewModelServer(NewModel(traits.PressedState_PRESSED))", typ="ModelServer", msg="PressedState", get="GetPressedState", upd="UpdatePressedState", field="PressedState", pull="PullPressedState", elem="PressedState",
         a=("State", "state", "int32", "traits.PressedState_Press(%s)", "int32(%s)"), b=None),
    dict(pkg="speakerpb", api="SpeakerApi", new="NewMemoryDevice(&types.AudioLevel{})", typ="MemoryDevice", msg="types.AudioLevel", get="GetVolume", greq="GetSpeakerVolumeRequest", upd="UpdateVolume", ureq="UpdateSpeakerVolumeRequest", field="Volume", pull="PullVolume", preq="PullSpeakerVolumeRequest", elem="Level",
         a=("Gain", "gain", "float32", "%s", "%s"), b=("Muted", "muted", "bool", "%s", "%s"), delta="Delta"),
    dict(pkg="lightpb", api="LightApi", new="NewModelServer(NewModel(WithInitialBrightness(&traits.Brightness{})))", typ="ModelServer", msg="Brightness", get="GetBrightness", upd="UpdateBrightness", field="Brightness", pull="PullBrightness", elem="Brightness",
         a=("LevelPercent", "level_percent", "float32", "%s", "%s"), b=("TargetLevelPercent", "target_level_percent", "float32", "%s", "%s")),
    dict(pkg="airtemperaturepb", api="AirTemperatureApi", new="NewModelServer(NewModel(WithInitialAirTemperature(&traits.AirTemperature{})))", typ="ModelServer", msg="AirTemperature", get="GetAirTemperature", upd="UpdateAirTemperature", field="State", pull="PullAirTemperature", elem="AirTemperature",
         a=("Mode", "mode", "int32", "traits.AirTemperature_Mode(%s)", "int32(%s)"), b=None),
    dict(pkg="fanspeedpb", api="FanSpeedApi", new="NewModelServer(NewModel())", typ="ModelServer", msg="FanSpeed", get="GetFanSpeed", upd="UpdateFanSpeed", field="FanSpeed", pull="PullFanSpeed", elem="FanSpeed",
         a=("Percentage", "percentage", "float32", "%s", "%s"), b=("Direction", "direction", "int32", "traits.FanSpeed_Direction(%s)", "int32(%s)"), tol=0.01, delta="Relative"),
]

def gen(t):
    A, B = t["a"], t["b"]
    msg = t["msg"] if "." in t["msg"] else "traits." + t["msg"]
    greq = "traits." + t.get("greq", t["get"] + "Request")
    ureq = "traits." + t.get("ureq", t["upd"] + "Request")
    preq = "traits." + t.get("preq", t["pull"] + "Request")
    d = t.get("delta")
    flds = [A] + ([B] if B else [])
    par = lambda p: ", ".join("%s%s %s" % (p, "ab"[i], f[2]) for i, f in enumerate(flds))
    lit = lambda p: "&%s{%s}" % (msg, ", ".join("%s: %s" % (f[0], f[3] % (p + "ab"[i])) for i, f in enumerate(flds)))
    zero = {"int32": "0", "float32": "0", "string": '""', "bool": "false"}
    val = lambda m, f: f[4] % ("%s.%s" % (m, f[0]))
    same = lambda x, y: " && ".join("%s == %s" % (val(x, f), val(y, f)) for f in flds)
    fl = [("%s%s" % (p, "ab"[i])) for p in ("first", "second") for i, f in enumerate(flds) if f[2] == "float32"]
    nan = "".join("\tgv.Requires(%s == %s)\n" % (v, v) for v in fl)
    dpar, dset = (", delta bool", ", %s: delta" % d) if d else ("", "")
    plain = "!delta && " if d else ""
    o = []
    w = o.append
    w("package %s\n\nimport (\n\t\"context\"\n" % t["pkg"])
    w('\t"github.com/smart-core-os/sc-api/go/traits"')
    if "types." in msg:
        w('\t"github.com/smart-core-os/sc-api/go/types"')
    w('\t"github.com/smart-core-os/sc-golang/internal/gv"')
    w('\t"google.golang.org/grpc/codes"\n\t"google.golang.org/grpc/status"\n\t"google.golang.org/protobuf/proto"\n\t"google.golang.org/protobuf/types/known/fieldmaskpb"\n)\n')
    w("// dgMask are the masks of the contracts.\nfunc dgMask(which uint8) *fieldmaskpb.FieldMask {\n\tswitch which {\n\tcase 0:\n\t\treturn nil")
    w('\tcase 1:\n\t\treturn &fieldmaskpb.FieldMask{Paths: []string{"%s"}}' % A[1])
    w('\tcase 2:\n\t\treturn &fieldmaskpb.FieldMask{Paths: []string{"%s"}}' % (B[1] if B else A[1]))
    w('\tcase 3:\n\t\treturn &fieldmaskpb.FieldMask{}\n\t}\n\treturn &fieldmaskpb.FieldMask{Paths: []string{"%s"}}\n}\n' % t.get("bad", "nope"))
    # the register
    w("// Any two updates of any values and masks through a wrapped router of a wrapped server, and any read: one register.\n//")
    w("//gv:property C14\n//gv:for (*%s).%s covers (*%s).%s WrapApi (*ApiRouter).%s (*ApiRouter).%s\n//gv:delays 0\n//gv:norun" % (t["typ"], t["upd"], t["typ"], t["get"], t["upd"], t["get"]))
    w("func gvc_RegisterThroughTheStack(%s, %s%s, mask, read uint8) {\n\tgv.Requires(mask <= 4 && read <= 2)\n%s" % (par("first"), par("second"), dpar, nan) + "\tr := NewApiRouter()")
    w("\tr.Add%sClient(\"a\", WrapApi(%s))\n\tclient := WrapApi(r)\n\tctx := context.Background()" % (t["api"], t["new"]))
    w("\tfirst, err := client.%s(ctx, &%s{Name: \"a\", %s: %s})\n\tgv.Ensures(\"the first update\", err == nil)" % (t["upd"], ureq, t["field"], lit("first")))
    w("\twas, err := client.%s(ctx, &%s{Name: \"a\"})\n\tgv.Ensures(\"is the next Get\", err == nil && %s && proto.Equal(first, was))" % (t["get"], greq, same("first", "was")))
    if not t.get("tol"):
        w("\tgv.Ensures(\"as asked\", %s)" % " && ".join("(%s == %s || %s == %s)" % (val("was", f), "first" + "ab"[i], "first" + "ab"[i], zero[f[2]]) for i, f in enumerate(flds)))
    w("\tgot, err := client.%s(ctx, &%s{Name: \"a\", %s: %s, UpdateMask: dgMask(mask)%s})" % (t["upd"], ureq, t["field"], lit("second"), dset))
    w("\tnow, gerr := client.%s(ctx, &%s{Name: \"a\"})\n\tgv.Ensures(\"reads succeed\", gerr == nil)" % (t["get"], greq))
    w("\tif err != nil {\n\t\tgv.Reach(\"refused\")\n\t\tgv.Ensures(\"without effect\", %s && proto.Equal(now, was))\n\t} else {\n\t\tgv.Reach(\"updated\")" % same("now", "was"))
    w("\t\tgv.Ensures(\"the response is the next Get\", %s && proto.Equal(got, now))\n\t}" % same("got", "now"))
    w("\tgv.Ensures(\"masks of other fields are refused, and only those\", gv.Iff(mask == 4, status.Code(err) == codes.InvalidArgument))")
    if not t.get("tol"):
        w("\tif %smask == 1 {\n\t\tgv.Reach(\"one field\")\n\t\tgv.Ensures(\"the field of the mask is written\", %s == seconda)" % (plain, val("now", A)))
        if B:
            w("\t\tgv.Ensures(\"and no other\", %s == %s)" % (val("now", B), val("was", B)))
        w("\t}")
    w("\tpart, err := client.%s(ctx, &%s{Name: \"a\", ReadMask: dgMask(read)})" % (t["get"], greq))
    if B:
        w("\tgv.Ensures(\"a masked Get is the projection\", err == nil && (%s == %s || read == 2 && %s == %s) && (%s == %s || read == 1 && %s == %s))" % (val("part", A), val("now", A), val("part", A), zero[A[2]], val("part", B), val("now", B), val("part", B), zero[B[2]]))
        w("\tgv.Ensures(\"and no more\", read == 0 || read == 1 && %s == %s || read == 2 && %s == %s)" % (val("part", B), zero[B[2]], val("part", A), zero[A[2]]))
    else:
        w("\tgv.Ensures(\"a masked Get is the projection\", err == nil && %s == %s)" % (val("part", A), val("now", A)))
    w("\t_, err = client.%s(ctx, &%s{Name: \"b\"})\n\tgv.Ensures(\"other names aren't found\", status.Code(err) == codes.NotFound)\n}\n" % (t["get"], greq))
    # the stream
    w("// A Pull of any value and any update, through a wrapped server: it starts with the current value unless only updates are\n// wanted, then carries each update that changes it, with the name asked for.\n//")
    w("//gv:property C14\n//gv:for (*%s).%s covers WrapApi (*%s).%s\n//gv:delays 0\n//gv:norun" % (t["typ"], t["pull"], t["typ"], t["upd"]))
    w("func gvc_PullThroughWrapper(%s, %s%s, read uint8, updatesOnly bool) {\n\tgv.Requires(read <= 2)\n%s\tbase := gv.Goroutines()" % (par("first"), par("second"), dpar, nan))
    w("\tclient := WrapApi(%s)\n\tctx, cancel := context.WithCancel(context.Background())" % t["new"])
    w("\twas, err := client.%s(ctx, &%s{Name: \"a\", %s: %s})\n\tgv.Ensures(\"the first update\", err == nil)" % (t["upd"], ureq, t["field"], lit("first")))
    w("\tstream, err := client.%s(ctx, &%s{Name: \"a\", ReadMask: dgMask(read), UpdatesOnly: updatesOnly})\n\tgv.Ensures(\"the call starts\", err == nil)" % (t["pull"], preq))
    sees = lambda m: " && ".join(filter(None, ["(read == 2 || %s == %s)" % (val("v", A), val(m, A)) if B else "%s == %s" % (val("v", A), val(m, A)), "(read == 1 || %s == %s)" % (val("v", B), val(m, B)) if B else "",
                                       "(read != 2 || %s == %s) && (read != 1 || %s == %s)" % (val("v", A), zero[A[2]], val("v", B), zero[B[2]]) if B else ""]))
    w("\tif !updatesOnly {\n\t\tgv.Reach(\"with a seed\")\n\t\tres, err := stream.Recv()\n\t\tgv.Ensures(\"it starts\", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == \"a\")")
    w("\t\tv := res.Changes[0].%s\n\t\tgv.Ensures(\"with the current value\", %s)\n\t}\n\tgv.Settles(base) // the stream is open" % (t["elem"], sees("was")))
    w("\tgot, err := client.%s(ctx, &%s{Name: \"a\", %s: %s%s})\n\tgv.Ensures(\"updated\", err == nil)" % (t["upd"], ureq, t["field"], lit("second"), dset))
    if t.get("tol"):
        diff = "read != 2 && (%s-%s > 1 || %s-%s > 1)" % (val("got", A), val("was", A), val("was", A), val("got", A))
        diff = "%s || read != 1 && %s != %s" % (diff, val("got", B), val("was", B))
    else:
        diff = "%s%s != %s" % ("read != 2 && " if B else "", val("got", A), val("was", A))
        if B:
            diff += " || read != 1 && %s != %s" % (val("got", B), val("was", B))
    w("\tif %s {\n\t\tgv.Reach(\"changed\")\n\t\tres, err := stream.Recv()\n\t\tgv.Ensures(\"the update arrives\", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == \"a\")" % diff)
    w("\t\tv := res.Changes[0].%s\n\t\tgv.Ensures(\"as the response was\", %s)\n\t}" % (t["elem"], sees("got")))
    w("\tcancel()\n\tfor {\n\t\tif _, err = stream.Recv(); err != nil {\n\t\t\tbreak\n\t\t}\n\t}\n\tgv.Ensures(\"cancelled\", status.Code(err) == codes.Canceled)\n\tgv.Ensures(\"nothing is left running\", gv.Settles(base))\n}")
    return "\n".join(o) + "\n"

for t in TRAITS:
    path = os.path.join(HERE, "pkg/trait", t["pkg"], "zz_gv_d14.go")
    with open(path, "w") as f:
        f.write(gen(t))
