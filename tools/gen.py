#!/usr/bin/env python3
"""Development-time generator: spec/wire.txt + spec/enums.txt -> harness/src/spec.rs, golden.rs.

The outputs are committed; no check runs this.  spec/enums.txt is the golden
table of enumeration codes (name, width in bits, default code, variant=code...).
"""
import re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRIM={'u8':8,'i8':8,'u16':16,'i16':16,'u32':32,'i32':32,'u64':64,'i64':64,'f32':32,'f64':64}
enums={}
for l in open(V+'/spec/enums.txt'):
    if l.startswith('#') or not l.strip(): continue
    t=l.split()
    enums[t[0]]=(int(t[1]),int(t[2]),[(x.split('=')[0],int(x.split('=')[1])) for x in t[4:]],t[3])
recs=[];pdus=[];cur=None;custom=[]
for l in open(V+'/spec/wire.txt'):
    l=l.rstrip('\n')
    if not l.strip() or l.startswith('#'): continue
    if not l.startswith(' '):
        t=l.split()
        if t[0]=='record':
            cur=dict(name=t[1],path=t[2],traits=t[3].split('=')[1],nodefault='nodefault' in t,fields=[]); recs.append(cur)
        elif t[0]=='custom':
            cur=dict(name=t[1],path=t[2],traits=t[3].split('=')[1],fields=[]); custom.append(cur)
        elif t[0]=='pdu':
            cur=dict(name=t[1],module=t[2],type=t[3].split('=')[1],family=t[4].split('=')[1],fields=[]); pdus.append(cur)
        continue
    t=l.split()
    assert len(t)>=2,l
    f=dict(name=t[0],kind=t[1])
    if t[0]=='pad': f=dict(name='pad',kind='pad',bits=int(t[1][1:]))
    elif t[1]=='enum':
        f['ty']=t[2]
        if len(t)>3: f['as']=int(t[3][2:])//8
    elif t[1]=='list':
        r=t[2:]; e=r[0]=='enum'
        if e: r=r[1:]
        f['ty']=r[0]; c=[x for x in r if x.startswith('count=')][0][6:]
        f['div']=''
        if '/' in c: c,f['div']=c.split('/')
        f['count']=c
    elif t[1]=='array': f['ty']=t[2]; f['n']=int(t[3])
    elif t[1]=='opt': f['ty']=t[2]; f['len']=t[3].split('=')[1]
    elif t[1]=='optlist':
        f['ty']=t[2] if t[2]!='list' else 'Vec<%s>'%t[3]
    else: f['kind']='val'; f['ty']=t[1]
    cur['fields'].append(f)
types={}
recmap={r['name']:r for r in recs}
usedenums=set()
def width(r,path):
    """width in bits of the counting field"""
    parts=path.split('.')
    for f in r['fields']:
        if f['name']==parts[0]:
            if len(parts)==1: return PRIM[f['ty']]
            return width(recmap[f['ty']],'.'.join(parts[1:]))
    raise Exception(path)
def rty(f):
    return f['ty']
out=[]
def emit(*a): out.append(''.join(a))
def fixed(r):
    n=0
    for f in r['fields']:
        if f['kind']=='pad': n+=f['bits']//8
        elif f['kind']=='enum': n+=f.get('as',enums[f['ty']][0]//8)
        elif f['kind']=='array': n+=PRIM[f['ty']]//8*f['n']
        elif f['kind']=='val':
            if f['ty'] in PRIM: n+=PRIM[f['ty']]//8
            elif f['ty']=='EntityMarking': n+=12
            elif f['ty']=='FrozenBehavior': n+=1
            elif f['ty']=='ObjectStateAppearanceGeneral': n+=2
            elif f['ty'] in recmap:
                x=fixed(recmap[f['ty']])
                if x is None: return None
                n+=x
            else: return None
        else: return None
    return n
def counttype(b): return 'u%d'%b
def set_stmts(r,var,g):
    o=[]
    for i,f in enumerate([x for x in r['fields'] if x['kind']!='pad']):
        if f['kind']=='list':
            b=width(r,f['count']); mx=(1<<b)-1
            if f['div']=='8': mx=mx//8
            elif f['div']=='bits': mx=8191
            o.append(f'{var}.{f["name"]} = {g}.list({mx});')
        elif f['kind']=='opt':
            o.append(f'{var}.{f["name"]} = {g}.opt();')
        elif f['kind']=='optlist':
            o.append(f'{var}.{f["name"]} = {g}.optlist();')
        else: o.append(f'{var}.{f["name"]} = Wire::gen({g});')
    return o
def fix_stmts(r,var):
    o=[]
    for f in r['fields']:
        if f['kind']=='list':
            b=width(r,f['count']); c=f'{var}.{f["count"]}'; n=f'{var}.{f["name"]}.len()'
            if f['div']=='': o.append(f'{c} = {n} as u{b};')
            elif f['div']=='8': o.append(f'{c} = ({n} * 8) as u{b};')
            else: o.append(f'{c} = bits_for({n}, {c} as u64) as u{b};')
        elif f['kind']=='opt':
            b=width(r,f['len']); o.append(f'{var}.{f["len"]} = {var}.{f["name"]}.as_ref().map_or(0, |b| blob_len(b)) as u{b};')
    return o
def enc_stmts(r,var):
    lens={f['len']:f for f in r['fields'] if f['kind']=='opt'}
    o=[]
    for f in r['fields']:
        n=f['name']
        if f['kind']=='pad': o.append(f'w.pad({f["bits"]//8});')
        elif n in lens:
            b=PRIM[f['ty']]; o.append(f'w.int({b//8}, {var}.{lens[n]["name"]}.as_ref().map_or(0, |b| blob_len(b)) as u64);')
        elif f['kind']=='list':
            o.append(f'w.enter_list(); for x in &{var}.{n} {{ Wire::enc(x, w); }} w.leave_list();')
        elif f['kind']=='opt': o.append(f'if let Some(x) = &{var}.{n} {{ Wire::enc(x, w); }}')
        elif f['kind']=='optlist': o.append(f'for x in {var}.{n}.iter().flatten() {{ Wire::enc(x, w); }}')
        else:
            if any(ff['kind']=='list' and ff['count']==n for ff in r['fields']): o.append('w.mark_count();')
            if 'as' in f: o.append(f'enc_wide(&{var}.{n}, w, {f["as"]});')
            else: o.append(f'Wire::enc(&{var}.{n}, w);')
    return o
def dec_stmts(r,var):
    o=[]
    lists=[f for f in r['fields'] if f['kind']=='list']
    last=lists[-1]['name'] if lists and r['fields'][-1]['kind']=='list' else None
    for f in r['fields']:
        n=f['name']
        if f['kind']=='pad': o.append(f'r.skip({f["bits"]//8})?;')
        elif f['kind']=='list':
            c=f'{var}.{f["count"]} as u64'
            if f['div']=='8': c=f'r.div8({c})'
            elif f['div']=='bits': c=f'({c}).div_ceil(8)'
            o.append(f'{var}.{n} = {{ let n = {c}; r.list(n)? }};')
        elif f['kind']=='opt':
            o.append(f'{var}.{n} = r.opt({var}.{f["len"]} as usize)?;')
        elif f['kind']=='optlist': pass
        elif 'as' in f: o.append(f'{var}.{n} = dec_wide(r, {f["as"]})?;')
        else: o.append(f'{var}.{n} = Wire::dec(r)?;')
    return o
def diff_stmts(r,a,b):
    o=[]
    for f in r['fields']:
        n=f['name']
        if f['kind']=='pad': continue
        fn={'opt':'diff_opt','optlist':'diff_optlist'}.get(f['kind'],'Wire::diff')
        o.append(f'if let Some(d) = {fn}(&{a}.{n}, &{b}.{n}) {{ return Some(format!(".{n}{{d}}")); }}')
    return o
def dup_stmts(r,a,b):
    o=[]
    for f in r['fields']:
        n=f['name']
        if f['kind']=='pad': continue
        fn={'opt':'dup_opt','optlist':'dup_optlist'}.get(f['kind'],'Wire::dup')
        o.append(f'{b}.{n} = {fn}(&{a}.{n});')
    return o
emit('// Generated by tools/gen.py from spec/wire.txt and spec/enums.txt. Do not edit.')
emit('#![allow(clippy::all, deprecated, unused_imports, unused_variables, unused_mut)]')
emit('use crate::core::*;\nuse crate::custom::*;\nuse bytes::{Buf, BytesMut};')
emit('use open_dis_rust::common::{Pdu, PduHeader, SerializedLength, DISError, enums::{self, *}};')
emit('use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};')
for r in recs+custom: emit(f"#[allow(unused_imports)] pub use open_dis_rust::{r['path']}::{r['name']};")
for m in sorted({p['module'] for p in pdus}-{'user'}): emit(f"pub use open_dis_rust::{m}::*;")
for r in recs+pdus:
    for f in r['fields']:
        if f['kind']=='enum': usedenums.add(f['ty'])
        if f['kind']=='list' and f['ty'] in enums: usedenums.add(f['ty'])
usedenums|={'EntityMarkingCharacterSet','GridAxisDescriptorAxisType','GriddedDataSampleType','GriddedDataDataRepresentation','ProtocolVersion','PduType','ProtocolFamily','DISLiveEntitySubprotocolNumber'}
for e in sorted(usedenums):
    w,d,vs,dn=enums[e]
    emit(f'wire_enum!({e}, {w//8}, {dn}, [',', '.join(f'({v}, {c})' for v,c in vs),']);')
for r in recs:
    N=r['name']
    emit(f'impl Wire for {N} {{')
    emit(f'  fn gen(g: &mut G) -> Self {{')
    if r['nodefault']:
        emit(f'    Self {{ ',', '.join(f'{f["name"]}: Wire::gen(g)' for f in r['fields']),' }')
    else:
        emit('    let mut v = <Self as Default>::default();')
        for s in set_stmts(r,'v','g'): emit('    ',s)
        fx=fix_stmts(r,'v')
        if fx: emit('    if g.consistent { ',' '.join(fx),' }')
        emit('    v')
    emit('  }\n  fn enc(&self, w: &mut W) {')
    for s in enc_stmts(r,'self'): emit('    ',s)
    emit('  }\n  fn dec(r: &mut R) -> Result<Self, Short> {')
    if r['nodefault']:
        emit(f'    Ok(Self {{ ',', '.join(f'{f["name"]}: Wire::dec(r)?' for f in r['fields']),' })')
    else:
        emit('    let mut v = <Self as Default>::default();')
        for s in dec_stmts(r,'v'): emit('    ',s)
        emit('    Ok(v)')
    emit('  }\n  fn diff(&self, o: &Self) -> Option<String> {')
    for s in diff_stmts(r,'self','o'): emit('    ',s)
    emit('    None\n  }\n  fn dup(&self) -> Self {')
    if r['nodefault']:
        emit('    Self { ',', '.join(f'{f["name"]}: Wire::dup(&self.{f["name"]})' for f in r['fields']),' }')
    else:
        emit('    let mut v = <Self as Default>::default();')
        for s in dup_stmts(r,'self','v'): emit('    ',s)
        emit('    v')
    emit('  }\n}')
for r in recs+[c for c in custom if c['name'] not in('AntennaPattern','ModulationParameters')]:
    N=r['name']; T=r['traits']
    fx=fixed(r) if r in recs else (12 if N=='EntityMarking' else None)
    emit(f'impl Rec for {N} {{ const NAME: &\'static str = "{N}"; const FIXED: Option<usize> = {"Some(%d)"%fx if fx is not None else "None"};')
    emit(f'  fn ser(&self, b: &mut BytesMut) {{ self.serialize(b) }}')
    emit(f'  fn de(b: &mut &mut dyn Buf) -> Self {{ Self::deserialize(b) }}')
    emit('  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }')
    emit('  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }')
    if 'S' in T: emit('  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }')
    if 'D' in T: emit('  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }')
    if 'L' in T: emit('  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }')
    if 'C' in T: emit('  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }')
    emit('}')
emit('pub fn records() -> Vec<Box<dyn DynRec>> { vec![')
for r in recs+[c for c in custom if c['name'] not in('AntennaPattern','ModulationParameters')]:
    emit(f'  Box::new(RecOf::<{r["name"]}>::new()),')
emit(']}')
def pdu_spec(p):
    N=p['name']; tv,tc=p['type'].split(':'); fv,fc=p['family'].split(':')
    real=[f for f in p['fields'] if f['kind']!='pad']
    emit(f'impl PduSpec for {N} {{ const NAME: &\'static str = "{N}"; const TYPE: (PduType, u8) = (PduType::{tv}, {tc}); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::{fv}, {fc});')
    emit(f'  const FIELDS: &\'static [&\'static str] = &[',', '.join(f'"{f["name"]}"' for f in real),'];')
    emit(f'  const LISTS: &\'static [usize] = &[',', '.join(str(i) for i,f in enumerate(real) if f['kind']=='list' or (f['kind']=='val' and f['ty'] in('RecordSpecification','StandardVariableSpecification'))),'];')
    fr=fixed(p)
    emit(f'  const FIXED: Option<usize> = {"Some(%d)"%fr if fr is not None else "None"};')
    emit('  fn create() -> Self { Self::new() }')
    emit('  fn set_field(&mut self, k: usize, g: &mut G) { match k {')
    for i,s in enumerate(set_stmts(p,'self','g')): emit(f'    {i} => {{ {s} }}')
    emit('    _ => unreachable!() } }')
    emit('  fn fix_counts(&mut self) {')
    for s in fix_stmts(p,'self'): emit('    ',s)
    emit('  }\n  fn trim_lists(&mut self, keep: usize) {')
    for f in p['fields']:
        if f['kind']=='list': emit(f'    self.{f["name"]}.truncate(keep);')
        elif f['kind']=='optlist': emit(f'    self.{f["name"]}.truncate(keep);')
        elif f['kind']=='val' and f['ty']=='RecordSpecification': emit(f'    self.{f["name"]}.record_sets.truncate(keep); for e in &mut self.{f["name"]}.record_sets {{ e.record_values.truncate(keep); }}')
        elif f['kind']=='val' and f['ty']=='StandardVariableSpecification': emit(f'    self.{f["name"]}.standard_variable_records.truncate(keep); for e in &mut self.{f["name"]}.standard_variable_records {{ e.record_specific_fields.truncate(keep); }}')
    emit('  }\n  fn enc_body(&self, w: &mut W) {')
    for s in enc_stmts(p,'self'): emit('    ',s)
    emit('  }\n  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {')
    for s in dec_stmts(p,'self'): emit('    ',s)
    emit('    Ok(())\n  }\n  fn diff_body(&self, o: &Self) -> Option<String> {')
    for s in diff_stmts(p,'self','o'): emit('    ',s)
    emit('    None\n  }\n  fn dup_body(&self, o: &mut Self) {')
    for s in dup_stmts(p,'self','o'): emit('    ',s)
    emit('  }\n}')
for p in pdus:
    if p['module']!='user': pdu_spec(p)
emit('pub fn kinds() -> Vec<Box<dyn Kind>> { vec![')
for p in pdus:
    if p['module']!='user': emit(f'  Box::new(KindOf::<{p["name"]}>::new()),')
emit(']}')
open(V+'/harness/src/spec.rs','w').write('\n'.join(out)+'\n')
# the PDUs an application defines
out=[]
emit('// Generated by tools/gen.py from spec/wire.txt. Do not edit.')
emit('//! PDUs an application defines with the exported macro.\n#![allow(clippy::all, unused_imports, unused_variables, unused_mut)]\nuse crate::core::*;\nuse crate::custom::*;')
emit('use open_dis_rust::common::{enums::*, GenericHeader, Pdu, PduHeader, SerializedLength};\nuse open_dis_rust::define_pdu;')
uses=set()
for p in pdus:
    if p['module']=='user':
        for f in p['fields']:
            if f['ty'] in recmap or f['ty'] in [c['name'] for c in custom]: uses.add(f['ty'])
for r in recs+custom:
    if r['name'] in uses and r['path']!='common::enums': emit(f"use open_dis_rust::{r['path']}::{r['name']};")
for p in pdus:
    if p['module']!='user': continue
    emit('define_pdu! {\n    #[derive(Debug)]\n    pub struct ',p['name'],' {\n        header: PduHeader,\n        pdu_type: PduType::',p['type'].split(':')[0],',\n        protocol_family: ProtocolFamily::',p['family'].split(':')[0],',\n        fields: {')
    for f in p['fields']:
        if f['kind']=='list':
            c='usize::try_from('+f['count']+').unwrap_or(usize::MAX)' if width(p,f['count'])==32 else f'usize::from({f["count"]})'
            c={'':f['count'],'bits':f'{c}.div_ceil(8)','8':f'{c} / 8'}[f['div']]
            emit(f'            #[count = {c}]')
            emit(f'            pub {f["name"]}: Vec<{f["ty"]}>,')
        elif f['kind']=='opt':
            emit(f'            #[len = {f["len"]}]\n            pub {f["name"]}: Option<{f["ty"]}>,')
        else: emit(f'            pub {f["name"]}: {f["ty"]},')
    emit('        }\n    }\n}')
for p in pdus:
    if p['module']=='user': pdu_spec(p)
emit('pub fn kinds() -> Vec<Box<dyn Kind>> { vec![')
for p in pdus:
    if p['module']=='user': emit(f'  Box::new(KindOf::<{p["name"]}>::new()),')
emit(']}')
open(V+'/harness/src/user.rs','w').write('\n'.join(out)+'\n')
out=[]
emit('// Generated by tools/gen.py from spec/enums.txt. Do not edit.')
emit('#![allow(clippy::all, deprecated, unused_imports)]\nuse bytes::{Buf, BytesMut};\nuse open_dis_rust::common::enums::*;\nuse open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};')
emit('''pub struct EnumRow { pub name: &'static str, pub bits: u32, pub default: u64, pub codes: &'static [(&'static str, u64)],
  pub actual: fn() -> Vec<u64>, pub decode: fn(&mut dyn Buf) -> (u64, String), pub dflt: Option<fn() -> u64>,
  pub field: Option<(fn(usize, &mut BytesMut), fn(&mut dyn Buf) -> u64, fn(usize) -> usize)>,
  pub pairs: fn() -> (u64, Option<String>), pub scan: Option<crate::checks::tables::Scan> }''')
src=open('/repo/src/common/enums.rs').read()
rows=[]
for e,(w,d,vs,dn) in enums.items():
    fld='None'
    scan=f'Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| {e}::deserialize(&mut b) as u64))' if w==32 else 'None'
    if re.search(r'impl (crate::pdu_macro::)?FieldSerialize for %s \{'%e,src):
        A=f'ALL_{e.upper()}'
        emit(f'static {A}: &[{e}] = &[',', '.join(f'{e}::{v}' for v,c in vs),'];')
        fld=f'Some((|i, b| FieldSerialize::serialize_field(&{A}[i], b), |mut b| <{e} as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&{A}[i])))'
    rows.append(f'  EnumRow {{ name: "{e}", bits: {w}, default: {d}, codes: &[{", ".join(chr(34)+v+chr(34)+", "+str(c) if False else "("+chr(34)+v+chr(34)+", "+str(c)+")" for v,c in vs)}], actual: || vec![{", ".join(f"{e}::{v} as u64" for v,c in vs)}], decode: |mut b| {{ let v = {e}::deserialize(&mut b); (v as u64, format!("{{v:?}}")) }}, dflt: Some(|| <{e} as Default>::default() as u64), field: {fld}, pairs: || crate::core::pairs(&[{", ".join(f"{e}::{v}" for v,c in vs)}], |v| v as u64), scan: {scan} }},')
emit('pub static ENUMS: &[EnumRow] = &[')
out+=rows
emit('];')
open(V+'/harness/src/golden.rs','w').write('\n'.join(out)+'\n')
print(len(recs),len(custom),len(pdus),len(usedenums),len(rows))
