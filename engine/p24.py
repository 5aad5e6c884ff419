"""P24: compile witnesses. Positive snippets must compile (and link symbolically), negative ones must not."""
import os, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from common import *

PRE = '#include "Json4C4/C4Json.h"\nnamespace Json = C4::Json; namespace TS = Terathon;\n'
USER = PRE + '''
struct In { double x = 0; TS::String<> s; TS::Array<double> v; };
#define IN_PROTO "x", object.x, Json::optional, "s", object.s, "v", object.v
DEFINE_JSON4C4_FUNCTIONS( In, IN_PROTO )
class Mem { double a = 0; bool b = false; public: TS::String<> s;
#define MEM_PROTO "a", a, "b", b, Json::optional, "s", s
DEFINE_JSON4C4_MEMBER_FUNCTIONS( MEM_PROTO ) };
'''

def use(t, std=False):
    return ('%s', '''void f( Json::StructuredData& d, %s& x ) { const %s& c = x; Json::Status s = d.DeserializeTo( x ); s = Json::Validate( d, c ); s = d.SerializeFrom( c ); (void)s; }''' % (t, t))

def member(t):
    return '''struct Holder { %s m; };
#define HP "m", object.m
DEFINE_JSON4C4_FUNCTIONS( Holder, HP )
struct OHolder { %s m; };
#define OHP Json::optional, "m", object.m
DEFINE_JSON4C4_FUNCTIONS( OHolder, OHP )
void f( Json::StructuredData& d, Holder& x, OHolder& y ) { d.DeserializeTo( x ); Json::Validate( d, x ); d.SerializeFrom( x ); d.DeserializeTo( y ); Json::Validate( d, y ); d.SerializeFrom( y ); }''' % (t, t)

TS_TYPES = ['TS::String<>', 'double', 'bool', 'Json::Null', 'TS::Array<TS::String<>>', 'TS::Array<double>', 'TS::Array<bool>', 'TS::Array<Json::Null>',
            'TS::Array<TS::Array<double>>', 'Json::ObjectMap<TS::String<>>', 'Json::ObjectMap<double>', 'Json::ObjectMap<bool>', 'Json::ObjectMap<Json::Null>',
            'In', 'TS::Array<In>', 'Json::ObjectMap<In>', 'Mem', 'TS::Array<Mem>', 'Json::ObjectMap<Mem>']
STD_TYPES = ['std::string', 'std::vector<std::string>', 'std::vector<double>', 'std::vector<bool>', 'std::vector<Json::Null>', 'std::map<std::string, std::string>',
             'std::map<std::string, double>', 'std::map<std::string, bool>', 'std::map<std::string, Json::Null>', 'std::vector<In>', 'std::map<std::string, In>',
             'std::vector<Mem>', 'std::map<std::string, Mem>', 'std::vector<std::vector<double>>']

ACCESS = '''void g( Json::StructuredData& d ) {
 const Json::StructuredData& cd = d; Json::Value* v = d.GetRootJsonValue(); const Json::Value* cv = cd.GetRootJsonValue();
 TS::String<>* a = v->GetDataAsPointerTo<TS::String<>>(); const TS::String<>* b = cv->GetDataAsPointerTo<TS::String<>>();
 double* c = v->GetDataAsPointerTo<double>(); const double* e = cv->GetDataAsPointerTo<double>(); bool* h = v->GetDataAsPointerTo<bool>(); const bool* i = cv->GetDataAsPointerTo<bool>();
 Json::Null* j = v->GetDataAsPointerTo<Json::Null>(); const Json::Null* k = cv->GetDataAsPointerTo<Json::Null>();
 TS::Array<Json::Value*>* l = v->GetDataAsPointerTo<TS::Array<Json::Value*>>(); const TS::Array<Json::Value*>* m = cv->GetDataAsPointerTo<TS::Array<Json::Value*>>();
 Json::ObjectValue* n = v->AsJsonObjectValue(); const Json::ObjectValue* o = cv->AsJsonObjectValue();
 const TS::String<>* q = o->FindString( "n" ); const double* r = o->FindNumber( "n" ); const bool* s = o->FindBool( "n" ); const Json::Null* t = o->FindJsonNull( "n" );
 const TS::Array<Json::Value*>* u = o->FindJsonValueArray( "n" ); const Json::ObjectValue* w = o->FindJsonObjectValue( "n" );
 for ( const auto* x : *o ) { const TS::String<>& y = x->GetKey(); (void)y; } for ( auto* x : *n ) (void)x;
 Json::ParseResult p = d.Parse( "f" ); TS::Array<char> buf; p = d.Parse( buf ); int line = p.errorLine, col = p.errorColumn; Json::Status st = p.status;
 st = d.Write( "f" ); st = d.Write( "f", 4 ); st = d.Write( "f", 1, '\\t' ); TS::String<256> z = Json::StatusToString( st ); z = Json::ParseResultToString( p ); const char* ver = Json::GetVersion();
 (void)a;(void)b;(void)c;(void)e;(void)h;(void)i;(void)j;(void)k;(void)l;(void)m;(void)q;(void)r;(void)s;(void)t;(void)u;(void)w;(void)line;(void)col;(void)ver; }'''

# (name, must-not-compile body, control body that differs only in the offending point)
NEG = [
 ('deserialize an unsupported type', 'void f( const Json::Value* v, int& x ) { Json::Deserialize( v, x ); }', 'void f( const Json::Value* v, double& x ) { Json::Deserialize( v, x ); }'),
 ('deserialize into a float', 'void f( const Json::Value* v, float& x ) { Json::Deserialize( v, x ); }', 'void f( const Json::Value* v, double& x ) { Json::Deserialize( v, x ); }'),
 ('validate an unsupported type', 'void f( const Json::Value* v, const int& x ) { Json::Validate( v, x ); }', 'void f( const Json::Value* v, const double& x ) { Json::Validate( v, x ); }'),
 ('serialize an unsupported type', 'void f( Json::Value* v, const int& x ) { Json::Serialize( v, x ); }', 'void f( Json::Value* v, const double& x ) { Json::Serialize( v, x ); }'),
 ('deserialize a document into a type without rules', 'struct U { int q; }; void f( Json::StructuredData& d, U& x ) { d.DeserializeTo( x ); }', 'void f( Json::StructuredData& d, bool& x ) { d.DeserializeTo( x ); }'),
 ('deserialize an array of an unsupported type', 'void f( const Json::Value* v, TS::Array<int>& x ) { Json::Deserialize( v, x ); }', 'void f( const Json::Value* v, TS::Array<double>& x ) { Json::Deserialize( v, x ); }'),
 ('ask for data of an unsupported type', 'const void* f( const Json::Value* v ) { return v->GetDataAsPointerTo<long>(); }', 'const void* f( const Json::Value* v ) { return v->GetDataAsPointerTo<double>(); }'),
 ('ask for mutable data of an unsupported type', 'void* f( Json::Value* v ) { return v->GetDataAsPointerTo<long>(); }', 'void* f( Json::Value* v ) { return v->GetDataAsPointerTo<double>(); }'),
 ('mutable string data of a constant value', 'TS::String<>* f( const Json::Value* v ) { return v->GetDataAsPointerTo<TS::String<>>(); }', 'TS::String<>* f( Json::Value* v ) { return v->GetDataAsPointerTo<TS::String<>>(); }'),
 ('mutable number data of a constant value', 'double* f( const Json::Value* v ) { return v->GetDataAsPointerTo<double>(); }', 'double* f( Json::Value* v ) { return v->GetDataAsPointerTo<double>(); }'),
 ('mutable array data of a constant value', 'TS::Array<Json::Value*>* f( const Json::Value* v ) { return v->GetDataAsPointerTo<TS::Array<Json::Value*>>(); }', 'TS::Array<Json::Value*>* f( Json::Value* v ) { return v->GetDataAsPointerTo<TS::Array<Json::Value*>>(); }'),
 ('mutable object of a constant value', 'Json::ObjectValue* f( const Json::Value* v ) { return v->AsJsonObjectValue(); }', 'Json::ObjectValue* f( Json::Value* v ) { return v->AsJsonObjectValue(); }'),
 ('mutable root of a constant document', 'Json::Value* f( const Json::StructuredData& d ) { return d.GetRootJsonValue(); }', 'Json::Value* f( Json::StructuredData& d ) { return d.GetRootJsonValue(); }'),
 ('copy a constant document', 'void f( const Json::StructuredData& d ) { Json::StructuredData e( d ); (void)e; }', 'void f() { Json::StructuredData e; (void)e; }'),
 ('copy a document', 'void f( Json::StructuredData& d ) { Json::StructuredData e( d ); (void)e; }', 'void f() { Json::StructuredData e; (void)e; }'),
 ('assign a document', 'void f( Json::StructuredData& d, const Json::StructuredData& e ) { d = e; }', 'void f( Json::StructuredData& d ) { (void)d; }'),
 ('assign a mutable document', 'void f( Json::StructuredData& d, Json::StructuredData& e ) { d = e; }', 'void f( Json::StructuredData& d ) { (void)d; }'),
 ('name without data in a member list', 'struct B { double x; };\nJson::Status Deserialize( const Json::Value* v, B& ) { return Json::DeserializeProto( v, "x" ); }\nvoid f( Json::StructuredData& d, B& b ) { d.DeserializeTo( b ); }', 'struct B { double x; };\nJson::Status Deserialize( const Json::Value* v, B& b ) { return Json::DeserializeProto( v, "x", b.x ); }\nvoid f( Json::StructuredData& d, B& b ) { d.DeserializeTo( b ); }'),
 ('deserialize into a constant', 'void f( const Json::Value* v, const double& x ) { Json::Deserialize( v, x ); }', 'void f( const Json::Value* v, double& x ) { Json::Deserialize( v, x ); }'),
 ('compare a status with a number', 'bool f( Json::Status s ) { return s == 0; }', 'bool f( Json::Status s ) { return s == Json::Status::kOk; }'),
]

CONFIGS = [('default', []), ('without std support', ['-DJSON4C4_DISABLE_STD_SUPPORT']), ('without exceptions', ['-fno-exceptions'])]


def check():
    c = Check('P24')
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='p24-', dir=BUILD)
    jobs = []  # (kind, name, config, compiler, text)
    compilers = [[CXX, '-std=c++17', '-w', '-fsyntax-only']]
    if shutil.which('g++'):
        compilers.append(['g++', '-std=c++17', '-w', '-fsyntax-only'])
    pos = []
    for t in TS_TYPES:
        pos.append(('use ' + t, USER + use(t)[1], None))
        pos.append(('member ' + t, USER + member(t), None))
    for t in STD_TYPES:
        pos.append(('use ' + t, USER + use(t)[1], 'std'))
        pos.append(('member ' + t, USER + member(t), 'std'))
    pos.append(('typed access', USER + ACCESS, None))
    for i, comp in enumerate(compilers):
        for cname, flags in CONFIGS:
            if i == 1 and cname != 'default' and c.tier != 'thorough':
                continue
            for name, text, need in pos:
                if need == 'std' and cname == 'without std support':
                    continue
                jobs.append(('pos', name, cname, comp, flags, text))
            for s in sources():
                jobs.append(('pos', 'library source ' + rel(s), cname, comp, flags, '#include "%s"\n' % s))
            if cname != 'without exceptions':
                for name, bad, good in NEG:
                    jobs.append(('neg', name, cname, comp, flags, USER + bad))
                    jobs.append(('ctl', name, cname, comp, flags, USER + good))

    def go(j):
        i, (kind, name, cname, comp, flags, text) = j
        f = os.path.join(d, 's%d.cpp' % i)
        open(f, 'w').write(text + '\n')
        r = run([*comp, *flags, *INC, f])
        os.unlink(f)
        return kind, name, cname, comp[0], r.returncode, r.stderr

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, enumerate(jobs)))
    shutil.rmtree(d, ignore_errors=True)
    ctl = {(n, cf, co): rc for k, n, cf, co, rc, _ in res if k == 'ctl'}
    n = dict(pos=0, neg=0, ctl=0)
    for kind, name, cname, comp, rc, err in res:
        n[kind] += 1
        first = next((l for l in err.splitlines() if 'error:' in l), '')
        if kind in ('pos', 'ctl') and rc != 0:
            c.violation('%s|%s|%s' % (kind, name, cname), 'P24: supported use does not compile: %s (%s, %s): %s' % (name, cname, comp, first))
        if kind == 'neg' and rc == 0 and ctl.get((name, cname, comp)) == 0:
            c.violation('neg|%s|%s' % (name, cname), 'P24: must not compile but does: %s (%s, %s)' % (name, cname, comp))
    # link closure: what the header declares as provided by the library is defined by it
    for cname, flags, probe in (('default', [], STD_TYPES + TS_TYPES), ('without std support', ['JSON4C4_DISABLE_STD_SUPPORT'], TS_TYPES)):
        pf = os.path.join(VERIF, 'build', 'p24link.cpp')
        body = USER + ACCESS + '\n' + '\n'.join(use(t)[1] for t in probe)
        open(pf, 'w').write(body)
        try:
            m = module([pf], defines=flags)
        except AnalysisBroken as e:
            c.violation('link-compile|' + cname, 'P24: ' + str(e)[:500])
            continue
        und = [f['dem'] for k, f in m['functions'].items() if f['decl'] and ('C4::' in f['dem'] or f['dem'].startswith('Terathon::') or ' Terathon::' in f['dem'])]
        c.coverage['functions linked (%s)' % cname] = sum(1 for f in m['functions'].values() if not f['decl'])
        for u in und:
            c.violation('undef|' + u, 'P24: declared by the header, used by a supported type, but defined nowhere (%s): %s' % (cname, u))
    if n['pos'] < 60 or n['neg'] < 15:
        raise AnalysisBroken('too few witnesses')
    c.coverage.update(supported_uses=n['pos'], refused_uses=n['neg'], controls=n['ctl'])
    c.finish('Each supported use was compiled and each unsupported use was shown to be refused (with a control differing only in the offending point that compiles), per configuration and compiler; symbols needed by the supported uses are defined by the library.')


if __name__ == '__main__':
    check()
