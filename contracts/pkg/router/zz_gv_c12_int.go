package router

import (
	"errors"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

//gv:optional

// gvClient stands for a client.
type gvClient struct{ n int }

// gvWorld is a router whose registry, factory, fallback and change callback are arbitrary.
type gvWorld struct {
	r                 *router
	log               []Change
	made, helped      *gvClient
	makes, helps      int // 0: none configured, 1: fails, 2: gives nothing, 3: gives a client
	makings, helpings int
}

func gvNewWorld(registry map[string]any, makes, helps int, told bool) *gvWorld {
	gv.Requires(registry != nil)
	w := &gvWorld{made: &gvClient{1}, helped: &gvClient{2}, makes: makes, helps: helps}
	w.r = &router{registry: registry}
	if told {
		w.r.onChange = func(c Change) { w.log = append(w.log, c) }
	}
	answer := func(how int, c *gvClient) (any, error) {
		switch how {
		case 1:
			return nil, errors.New("fails")
		case 2:
			return nil, nil
		}
		return c, nil
	}
	if makes != 0 {
		w.r.factory = func(name string) (any, error) {
			w.makings++
			return answer(makes, w.made)
		}
	}
	if helps != 0 {
		w.r.fallback = func(name string) (any, error) {
			w.helpings++
			return answer(helps, w.helped)
		}
	}
	return w
}

// Add maps the name to the client and nothing else, returns the client before, and tells.
//
//gv:property C12
//gv:for (*router).Add
func gvc_Add(registry map[string]any, name, other string, n int, told bool) {
	w := gvNewWorld(registry, 0, 0, told)
	old, had := registry[name]
	before, there := registry[other]
	c := &gvClient{n}
	got := w.r.Add(name, c)
	gv.Ensures("Add returns the previous client", gv.Implies(had, got == old) && gv.Implies(!had, got == nil))
	now, ok := w.r.registry[name]
	gv.Ensures("the name is registered", ok && now == any(c))
	now, ok = w.r.registry[other]
	gv.Ensures("no other name is affected", gv.Implies(other != name, ok == there && now == before))
	gv.Ensures("the change is told", gv.Implies(told, len(w.log) == 1 && w.log[0].Name == name && w.log[0].Old == got && w.log[0].New == any(c) && !w.log[0].Auto))
}

// Remove forgets the name and nothing else, returns the client, and tells if there was one.
//
//gv:property C12
//gv:for (*router).Remove
func gvc_Remove(registry map[string]any, name, other string, told bool) {
	w := gvNewWorld(registry, 0, 0, told)
	old, had := registry[name]
	before, there := registry[other]
	got := w.r.Remove(name)
	gv.Ensures("Remove returns the removed client", gv.Implies(had, got == old) && gv.Implies(!had, got == nil))
	_, ok := w.r.registry[name]
	gv.Ensures("the name is not registered", !ok)
	now, ok := w.r.registry[other]
	gv.Ensures("no other name is affected", gv.Implies(other != name, ok == there && now == before))
	gv.Ensures("the change is told", gv.Implies(told && had, len(w.log) == 1 && w.log[0].Name == name && w.log[0].Old == old && w.log[0].New == nil && !w.log[0].Auto))
	gv.Ensures("what isn't a change isn't told", gv.Implies(!had, len(w.log) == 0))
}

// Has reports whether the name is registered.
//
//gv:property C12
//gv:for (*router).Has
func gvc_Has(registry map[string]any, name string) {
	w := gvNewWorld(registry, 0, 0, true)
	_, had := registry[name]
	gv.Ensures("Has reports whether the name is registered", w.r.Has(name) == had)
	gv.Ensures("Has changes nothing", len(w.log) == 0)
}

// Get returns the client registered, else what the fallback gives, else what the factory makes, which it registers.
//
//gv:property C12
//gv:for (*router).Get covers invoke
func gvc_Get(registry map[string]any, name, other string, makes, helps int, told bool) {
	gv.Requires(makes >= 0 && makes <= 3 && helps >= 0 && helps <= 3)
	w := gvNewWorld(registry, makes, helps, told)
	old, had := registry[name]
	before, there := registry[other]
	got, err := w.r.Get(name)
	helped := !had && helps == 3
	made := !had && helps != 3 && makes == 3
	gv.Ensures("Get finds a client if there is one", (err == nil) == (had || helped || made))
	gv.Ensures("Get returns the client registered", gv.Implies(had, got == old && w.makings == 0 && w.helpings == 0))
	gv.Ensures("Get returns the client the fallback gives", gv.Implies(helped, got == any(w.helped) && w.makings == 0))
	gv.Ensures("Get returns the client the factory makes, once", gv.Implies(made, got == any(w.made) && w.makings == 1))
	gv.Ensures("a name with no client is NotFound", gv.Implies(err != nil, status.Code(err) == codes.NotFound && got == nil))
	now, ok := w.r.registry[name]
	gv.Ensures("a client the factory makes is registered, no other is", ok == (had || made) && gv.Implies(had, now == old) && gv.Implies(made, now == any(w.made)))
	now, ok = w.r.registry[other]
	gv.Ensures("no other name is affected", gv.Implies(other != name, ok == there && now == before))
	gv.Ensures("the change is told", gv.Implies(told && made, len(w.log) == 1 && w.log[0].Name == name && w.log[0].Old == nil && w.log[0].New == any(w.made) && w.log[0].Auto))
	gv.Ensures("what isn't a change isn't told", gv.Implies(!made, len(w.log) == 0))
}
