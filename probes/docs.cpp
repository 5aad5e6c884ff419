// The deserialize, validate and serialize operations for every documented type, and where the parts of these types lie.
#include "Json4C4/C4Json.h"
#include <cstddef>
namespace Json = C4::Json;
namespace TS   = Terathon;
using Json::Status;

struct In
{
    double            x = 0;
    TS::String<>      s;
    TS::Array<double> v;
};
#define IN_PROTO "x", object.x, Json::optional, "s", object.s, "v", object.v
DEFINE_JSON4C4_FUNCTIONS( In, IN_PROTO )

class Mem
{
public:
    double a = 0;
    bool   b = false;
    TS::String<> s;
    In           in;
#define MEM_PROTO "a", a, "b", b, Json::optional, "s", s, "in", in
    DEFINE_JSON4C4_MEMBER_FUNCTIONS( MEM_PROTO )
};

// every member optional: what an element has not must not come from the element before it
struct Few
{
    double x = 0;
    TS::String<> s;
};
#define FEW_PROTO Json::optional, "x", object.x, Json::optional, "s", object.s
DEFINE_JSON4C4_FUNCTIONS( Few, FEW_PROTO )

// a value next to its members, and an optional user type: an absence inside must not be taken for an absence of the member itself
struct Opt
{
    bool b = false;
    In   in;
    Mem  m;
};
#define OPT_PROTO Json::optional, "in", object.in, Json::optional, "m", object.m, Json::optional, "b", object.b
DEFINE_JSON4C4_FUNCTIONS( Opt, OPT_PROTO )

extern "C"
{
    const void* doc_string( const Json::Value* v ) { return v->GetDataAsPointerTo<TS::String<>>(); }
    const void* doc_number( const Json::Value* v ) { return v->GetDataAsPointerTo<double>(); }
    const void* doc_bool( const Json::Value* v ) { return v->GetDataAsPointerTo<bool>(); }
    const void* doc_null( const Json::Value* v ) { return v->GetDataAsPointerTo<Json::Null>(); }
    const void* doc_array( const Json::Value* v ) { return v->GetDataAsPointerTo<TS::Array<Json::Value*>>(); }
    const void* doc_object( const Json::Value* v ) { return v->AsJsonObjectValue(); }
    void* mut_string( Json::Value* v ) { return v->GetDataAsPointerTo<TS::String<>>(); }
    void* mut_number( Json::Value* v ) { return v->GetDataAsPointerTo<double>(); }
    void* mut_bool( Json::Value* v ) { return v->GetDataAsPointerTo<bool>(); }
    void* mut_null( Json::Value* v ) { return v->GetDataAsPointerTo<Json::Null>(); }
    void* mut_array( Json::Value* v ) { return v->GetDataAsPointerTo<TS::Array<Json::Value*>>(); }
    void* mut_object( Json::Value* v ) { return v->AsJsonObjectValue(); }
    const void* find_string( const Json::ObjectValue* o, const char* n ) { return o->FindString( n ); }
    const void* find_number( const Json::ObjectValue* o, const char* n ) { return o->FindNumber( n ); }
    const void* find_bool( const Json::ObjectValue* o, const char* n ) { return o->FindBool( n ); }
    const void* find_null( const Json::ObjectValue* o, const char* n ) { return o->FindJsonNull( n ); }
    const void* find_array( const Json::ObjectValue* o, const char* n ) { return o->FindJsonValueArray( n ); }
    const void* find_object( const Json::ObjectValue* o, const char* n ) { return o->FindJsonObjectValue( n ); }
    const Json::Value* doc_root( const Json::StructuredData& d ) { return d.GetRootJsonValue(); }
    void doc_destroy( Json::StructuredData& d ) { d.~StructuredData(); }
    int  lay_values_count( const TS::Array<Json::Value*>* a ) { return a->GetArrayElementCount(); }
    const void* lay_values_begin( const TS::Array<Json::Value*>* a ) { return a->begin(); }
    const void* lay_values_end( const TS::Array<Json::Value*>* a ) { return a->end(); }
    const void* lay_value_name( const Json::Value* v ) { return &v->GetKey(); }
    const void* lay_object_map( const Json::ObjectValue& o ) { return static_cast<const TS::Map<Json::Value>*>( &o ); }
    unsigned long lay_In_x() { return offsetof( In, x ); }
    unsigned long lay_In_s() { return offsetof( In, s ); }
    unsigned long lay_In_v() { return offsetof( In, v ); }
    unsigned long lay_Mem_a() { return offsetof( Mem, a ); }
    unsigned long lay_Mem_b() { return offsetof( Mem, b ); }
    unsigned long lay_Mem_s() { return offsetof( Mem, s ); }
    unsigned long lay_Mem_in() { return offsetof( Mem, in ); }
    unsigned long lay_Few_x() { return offsetof( Few, x ); }
    unsigned long lay_Few_s() { return offsetof( Few, s ); }
    unsigned long lay_Opt_in() { return offsetof( Opt, in ); }
    unsigned long lay_Opt_m() { return offsetof( Opt, m ); }
    unsigned long lay_Opt_b() { return offsetof( Opt, b ); }
}

#define OPS( ID, ... )                                                                                                           \
    extern "C" Status des_##ID( Json::StructuredData& d, __VA_ARGS__& x ) { return d.DeserializeTo( x ); }           \
    extern "C" Status val_##ID( const Json::StructuredData& d, const __VA_ARGS__& x ) { return Json::Validate( d, x ); } \
    extern "C" Status ser_##ID( Json::StructuredData& d, const __VA_ARGS__& x ) { return d.SerializeFrom( x ); }
#define ARR( ID, T )                                                                                        \
    OPS( array_##ID, TS::Array<T> )                                                                         \
    extern "C" int lay_array_##ID##_count( const TS::Array<T>* a ) { return a->GetArrayElementCount(); }    \
    extern "C" const void* lay_array_##ID##_begin( const TS::Array<T>* a ) { return a->begin(); }           \
    extern "C" unsigned long lay_array_##ID##_size() { return sizeof( T ); }
#define MAP( ID, T )                                                                                                              \
    OPS( map_##ID, Json::ObjectMap<T> )                                                                                           \
    extern "C" const void* lay_map_##ID##_key( const Json::ObjectMapElement<T>* e ) { return &e->GetKey(); }                      \
    extern "C" const void* lay_map_##ID##_data( const Json::ObjectMapElement<T>* e ) { return &e->data; }
#define VEC( ID, T )                                                                                       \
    OPS( vector_##ID, std::vector<T> )                                                                     \
    extern "C" const void* lay_vector_##ID##_begin( const std::vector<T>* a ) { return a->data(); }        \
    extern "C" unsigned long lay_vector_##ID##_count( const std::vector<T>* a ) { return a->size(); }      \
    extern "C" unsigned long lay_vector_##ID##_size() { return sizeof( T ); }

OPS( string, TS::String<> )
OPS( number, double )
OPS( bool, bool )
OPS( null, Json::Null )
OPS( In, In )
OPS( Few, Few )
OPS( Mem, Mem )
OPS( Opt, Opt )
ARR( string, TS::String<> )
ARR( number, double )
ARR( bool, bool )
ARR( null, Json::Null )
ARR( array_number, TS::Array<double> )
ARR( In, In )
ARR( Few, Few )
ARR( Mem, Mem )
MAP( string, TS::String<> )
MAP( number, double )
MAP( bool, bool )
MAP( null, Json::Null )
MAP( In, In )
MAP( Few, Few )
MAP( Mem, Mem )
MAP( array_number, TS::Array<double> )
#ifndef JSON4C4_DISABLE_STD_SUPPORT
OPS( stdstring, std::string )
VEC( stdstring, std::string )
VEC( string, TS::String<> )
VEC( number, double )
VEC( null, Json::Null )
VEC( In, In )
VEC( Few, Few )
VEC( Mem, Mem )
OPS( vector_bool, std::vector<bool> )
OPS( stdmap_string, std::map<std::string, std::string> )
OPS( stdmap_number, std::map<std::string, double> )
OPS( stdmap_bool, std::map<std::string, bool> )
OPS( stdmap_null, std::map<std::string, Json::Null> )
OPS( stdmap_In, std::map<std::string, In> )
OPS( stdmap_Few, std::map<std::string, Few> )
static_assert( sizeof( std::string ) == 32, "the analysis assumes that values follow keys of 32 bytes" );
OPS( stdmap_Mem, std::map<std::string, Mem> )
#endif

extern "C"
{
    Status text_parse( Json::StructuredData& d, const TS::Array<char>& text, Json::ParseResult* result )
    {
        *result = d.Parse( text );
        return result->status;
    }
    Status text_write( Json::StructuredData& d, const char* name ) { return d.Write( name, 4, ' ' ); }
    const void* lay_line( const Json::ParseResult* r ) { return &r->errorLine; }
    const void* lay_column( const Json::ParseResult* r ) { return &r->errorColumn; }
}
