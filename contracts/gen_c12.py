"""Writes the contracts of the generated routers' methods: python3 contracts/gen_c12.py REPO

One file per service. The signatures come from the routers; what is required of them is the same for all."""
import glob, os, re, sys
repo = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))

UNARY = '''
func (c *gv{C}) {M}(ctx context.Context, req *{IN}, _ ...grpc.CallOption) (*{OUT}, error) {{
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*{IN}) || proto.Equal(req, c.want))
	c.called += "{M}."
	if c.err != nil {{
		return nil, c.err
	}}
	c.res = &{OUT}{{}}
	return c.res.(*{OUT}), nil
}}

// {M} passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*{R}).{M} covers {R}.Get{C} {R}.Add{C} {R}.Add {R}.HoldsType New{R}
//gv:norun
func gvc_{R}_{M}(req *{IN}, a, b string, fails bool) {{
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gv{C}{{want: req, was: was}}, &gv{C}{{want: req, was: was}}
	if fails {{
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}}
	r := New{R}()
	r.Add{C}(a, c1)
	r.Add{C}(b, c2)
	ctx := context.Background()
	res, err := r.{M}(ctx, req)
	to, not := c1, c2
	if req.Name == b {{
		to, not = c2, c1
	}} else if req.Name != a {{
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}}
	gv.Ensures("the request goes to its method of its client, once", to.called == "{M}." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}}
'''

STREAM = '''
func (c *gv{C}) {M}(ctx context.Context, req *{IN}, _ ...grpc.CallOption) ({CS}Client, error) {{
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*{IN}) || proto.Equal(req, c.want))
	c.called += "{M}."
	if c.how == 1 {{
		return nil, c.err
	}}
	return &gv{C}{M}{{c: c}}, nil
}}

type gv{C}{M} struct {{
	grpc.ClientStream
	c    *gv{C}
	said []*{OUT}
}}

func (s *gv{C}{M}) Header() (metadata.MD, error) {{
	if s.c.how == 2 {{
		return nil, s.c.err
	}}
	return metadata.MD{{"h": []string{{s.c.header}}}}, nil
}}
func (s *gv{C}{M}) Trailer() metadata.MD {{ return metadata.MD{{"t": []string{{s.c.header}}}} }}
func (s *gv{C}{M}) Recv() (*{OUT}, error) {{
	if len(s.said) == s.c.n {{
		if s.c.how == 3 {{
			return nil, s.c.err
		}}
		return nil, io.EOF
	}}
	m := &{OUT}{{}}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}}

// gv{R}{M} is the caller's side.
type gv{R}{M} struct {{
	grpc.ServerStream
	ctx     context.Context
	to      *gv{C}
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}}

func (s *gv{R}{M}) Context() context.Context {{ return s.ctx }}
func (s *gv{R}{M}) SendHeader(md metadata.MD) error {{
	s.headers++
	s.header = md["h"][0]
	return nil
}}
func (s *gv{R}{M}) SetTrailer(md metadata.MD) {{ s.trailer = md["t"][0] }}
func (s *gv{R}{M}) Send(m *{OUT}) error {{
	if s.n == s.drop {{
		return s.fail
	}}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}}

// {M} passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*{R}).{M} covers {R}.Get{C} {R}.Add{C} {R}.Add {R}.HoldsType New{R}
//gv:norun
func gvc_{R}_{M}(req *{IN}, a, b string, how, n, drop int, header string) {{
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gv{C}{{want: req, was: was, how: how, n: n, header: header}}, &gv{C}{{want: req, was: was, how: how, n: n, header: header}}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := New{R}()
	r.Add{C}(a, c1)
	r.Add{C}(b, c2)
	to, not := c1, c2
	if req.Name == b {{
		to, not = c2, c1
	}}
	ss := &gv{R}{M}{{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}}
	err := r.{M}(req, ss)
	if req.Name != b && req.Name != a {{
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}}
	gv.Ensures("the request goes to its method of its client, once", to.called == "{M}." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {{
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {{
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}}
'''

for f in sorted(glob.glob(repo + '/pkg/trait/*/*_router.pb.go')):
    src = open(f).read()
    pkg = re.search(r'^package (\w+)', src, re.M).group(1)
    R, API = re.search(r'^// (\w+) is a (\S+)Server that allows', src, re.M).groups()
    C = re.search(r'func \(r \*%s\) Add(\w+)\(' % R, src).group(1)
    imports = dict(re.findall(r'^\t(\w+) "([^"]+)"$', src, re.M))
    body = ''
    streams = False
    for m in re.finditer(r'^func \(r \*%s\) (\w+)\((.*)\) (.*) \{$' % R, src, re.M):
        name, args, res = m.groups()
        u = re.match(r'ctx context\.Context, request \*(\S+)$', args)
        s = re.match(r'request \*(\S+), server (\S+)Server$', args)
        if u:
            out = re.match(r'\(\*(\S+), error\)$', res).group(1)
            body += UNARY.format(C=C, R=R, M=name, IN=u.group(1), OUT=out)
        elif s:
            streams = True
            out = re.search(r'func \(r \*%s\) %s\(.*?var msg \*(\S+)\n' % (R, name), src, re.S).group(1)
            body += STREAM.format(C=C, R=R, M=name, IN=s.group(1), CS=s.group(2), OUT=out)
    if not body:
        continue # a service with no methods
    std = ['context', 'errors'] + (['io'] if streams else [])
    third = ['github.com/smart-core-os/sc-golang/internal/gv', 'google.golang.org/grpc', 'google.golang.org/grpc/codes'] + \
        (['google.golang.org/grpc/metadata'] if streams else []) + ['google.golang.org/grpc/status', 'google.golang.org/protobuf/proto']
    for k in ('traits', 'types', 'emptypb'):
        if k in imports and re.search(r'\b%s\.' % k, body + API):
            third.append(imports[k])
    o = '// Written by contracts/gen_c12.py.\n\npackage %s\n\nimport (\n' % pkg
    o += ''.join('\t"%s"\n' % i for i in std) + '\n' + ''.join('\t"%s"\n' % i for i in sorted(third)) + ')\n'
    o += '''
// gv%s is a client that tells what it was asked, and answers as it is told.
type gv%s struct {
	%sClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
%s}
''' % (C, C, API, '''	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
''' if streams else '')
    d = here + '/pkg/trait/' + pkg
    os.makedirs(d, exist_ok=True)
    open(d + '/zz_gv_c12_' + os.path.basename(f).replace('_router.pb.go', '') + '.go', 'w').write(o + body)
