#!/usr/bin/env python3
"""Instantiates the paged-list contract (written for electricpb) for the other servers with the same shape."""
import os,re
d=os.path.dirname(os.path.abspath(__file__))
src=open(d+'/pkg/trait/electricpb/zz_gv_c15.go').read()
def gen(pkg,L,Item,key,req,create,add,field,extra=None,suffix='',maskname='title',second=False,setname='Title'):
    t=src
    t=t.replace('package electricpb','package '+pkg)
    t=t.replace('gvc_ListModes','gvc_%s'%req).replace('gvg_ListModes','gvg_%s'%req)
    t=t.replace('ListModesRequest',req+'Request').replace('.ListModes(','.%s('%req).replace(').ListModes',').'+req)
    t=t.replace('m.Modes()','m.%s()'%L).replace('m.Modes(opts...)','m.%s(opts...)'%L).replace('(*Model).Modes','(*Model).'+L)
    t=t.replace('gvc_ModesSummary','gvc_'+L+'Summary').replace('gvg_ModesSummary','gvg_'+L+'Summary').replace('gvc_WalkModes','gvc_Walk'+field).replace('gvg_WalkModes','gvg_Walk'+field)
    t=t.replace('res.Modes','res.'+field).replace('Modes lists','%s lists'%L).replace('"Modes ','"%s '%L)
    t=t.replace('traits.ElectricMode','traits.'+Item)
    t=re.sub(r'\.Id\b','.'+key,t)
    t=t.replace('{Id: ','{%s: '%key).replace('{"id"}','{"%s"}'%key.lower())
    t=t.replace('Title: ',setname+': ').replace('.Title','.'+setname).replace('"title"','"%s"'%maskname)
    t=t.replace('_ = m.AddMode(x)',add)
    t=t.replace('_, err := m.CreateMode(mode)',create)
    t=t.replace('func gvc_Walk%s(count int, keep bool,'%field,'func gvc_Walk%s(count int, keep bool,'%field)
    if extra: t=extra(t)
    if second:
        # the token contracts are in the first file
        a=t.index('// specTokenOK and'); b=t.index('// %s lists'%L); t=t[:a]+t[b:]
        a=t.index('// decodePageToken reads'); b=t.index('// One page:'); t=t[:a]+t[b:]
        t=t.replace('\t"github.com/smart-core-os/sc-api/go/types"\n','')
    for f in ('specCount','specKey','genModel'):
        t=re.sub(r'\b%s\b'%f,f+suffix,t)
    os.makedirs(d+'/pkg/trait/'+pkg,exist_ok=True)
    open(d+'/pkg/trait/%s/zz_gv_c15%s.go'%(pkg,suffix.lower()),'w').write(t)
gen('hailpb','ListHails','Hail','Id','ListHails','_, err := m.CreateHail(mode)','_, _ = m.hails.Add(x.Id, x)','Hails',setname='State',maskname='state',
    extra=lambda t:t.replace('State: g.Str()','State: traits.Hail_State(g.R.Intn(3))').replace("State: string(rune('a' + i%26))",'State: traits.Hail_State(i % 3)'))
gen('publicationpb','ListPublications','Publication','Id','ListPublications','_, err := m.CreatePublication(mode)','_, _ = m.CreatePublication(x)','Publications',setname='MediaType',maskname='media_type')
gen('vendingpb','ListConsumables','Consumable','Name','ListConsumables','_, err := m.CreateConsumable(mode)','_, _ = m.CreateConsumable(x)','Consumables',setname='DisplayName',maskname='display_name')
gen('vendingpb','ListInventory','Consumable_Stock','Consumable','ListInventory','_, err := m.CreateStock(mode)','_, _ = m.CreateStock(x)','Inventory',suffix='Stock',second=True,setname='Dispensing',maskname='dispensing',
    extra=lambda t:t.replace('Dispensing: g.Str()','Dispensing: g.R.Intn(2) == 0').replace("Dispensing: string(rune('a' + i%26))",'Dispensing: i%3 == 0'))
gen('parentpb','ListChildren','Child','Name','ListChildren','var err error\n\t\tmode.Name = strconv.Itoa(i * 7919)\n\t\tm.AddChild(mode)','m.AddChild(x)','Children',setname='Traits',maskname='traits',
    extra=lambda t:t.replace('Traits: g.Str()','Traits: []*traits.Trait{{Name: g.Str()}}').replace("Traits: string(rune('a' + i%26))",'Traits: []*traits.Trait{{Name: strconv.Itoa(i)}}')
      .replace('got[i].Traits == all[i].Traits','got[i].Traits[0].Name == all[i].Traits[0].Name').replace('	"context"\n','	"context"\n	"strconv"\n').replace('m.ListChildren(opts...)','m.ListChildren()').replace('m *Model, opts []resource.ReadOption)','m *Model)').replace('(*Model, []resource.ReadOption) { return genModel(g, 8), nil }','*Model { return genModel(g, 8) }'))
