# writes contracts/internal/gvall/zz_gv_table.go, the list of routers and wrappers, from the repository (at authoring time)
import glob,os,re,sys
repo=sys.argv[1]; out=[]; imps={}
for f in sorted(glob.glob(repo+'/pkg/trait/*/*_router.pb.go')):
    s=open(f).read(); pkg=re.search(r'^package (\w+)',s,re.M).group(1)
    new=re.search(r'func (New\w*Router)\(',s).group(1)
    m=re.search(r'compile time check.*\nvar _ ((\w+\.)?(\w+))Server = ',s)
    full,qual,name=m.group(1),m.group(2) or '',m.group(3)
    fac=re.search(r'func (With\w+ClientFactory)\(',s).group(1)
    w=open(f.replace('_router','_wrap')).read()
    wrap=re.search(r'func (Wrap\w+)\(',w).group(1)
    imps[pkg]=1
    q=qual[:-1] if qual else pkg
    out.append(f'''	{{"{pkg}.{new}", {q}.{name}_ServiceDesc,
		func(o ...router.Option) Router {{ return {pkg}.{new}(o...) }},
		func(c grpc.ClientConnInterface) any {{ return {q}.New{name}Client(c) }},
		func(s any) any {{ return {pkg}.{wrap}(s.({q}.{name}Server)) }},
		func(f func(string) (any, error)) router.Option {{
			return {pkg}.{fac}(func(n string) ({q}.{name}Client, error) {{ c, err := f(n); r, _ := c.({q}.{name}Client); return r, err }})
		}}}},
''')
o='package gvall\n\nimport (\n\t"github.com/smart-core-os/sc-api/go/traits"\n\t"github.com/smart-core-os/sc-golang/pkg/router"\n'+''.join(f'\t"github.com/smart-core-os/sc-golang/pkg/trait/{p}"\n' for p in sorted(imps))+'''	"google.golang.org/grpc"
)

// Router is what the generated routers have in common.
type Router interface {
	router.Router
	HoldsType(client any) bool
	Register(server grpc.ServiceRegistrar)
}

// Service is one of the services with a generated router and wrapper.
type Service struct {
	Name    string
	Desc    grpc.ServiceDesc
	Router  func(...router.Option) Router
	Client  func(grpc.ClientConnInterface) any
	Wrap    func(server any) any
	Factory func(func(string) (any, error)) router.Option
}

// Services are all the services with a generated router and wrapper.
var Services = []Service{
'''+''.join(out)+'}\n'
open(os.path.join(os.path.dirname(__file__),'../contracts/internal/gvall/zz_gv_table.go'),'w').write(o)
print(len(out))
