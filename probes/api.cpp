// Roots of the public interface: every documented operation, instantiated for every documented type.
#include "Json4C4/C4Json.h"
namespace Json = C4::Json;
namespace TS   = Terathon;
using Json::Status;

struct In
{
    double            x = 0;
    TS::String<>      s;
    TS::Array<double> v;
};
#define IN_PROTO "x", object.x, Json::optional, "s", object.s, "v", object.v
DEFINE_JSON4C4_FUNCTIONS( In, IN_PROTO )

class Mem
{
    double a = 0;
    bool   b = false;

public:
    TS::String<> s;
    In           in;
#define MEM_PROTO "a", a, "b", b, Json::optional, "s", s, "in", in
    DEFINE_JSON4C4_MEMBER_FUNCTIONS( MEM_PROTO )
};

extern "C"
{
    void api_construct( Json::StructuredData* d ) { new Json::StructuredData; }
    void api_destroy( Json::StructuredData* d ) { delete d; }
    void api_parse_buffer( Json::StructuredData& d, const TS::Array<char>& b, Json::ParseResult& r ) { r = d.Parse( b ); }
    void api_parse_file( Json::StructuredData& d, const char* n, Json::ParseResult& r ) { r = d.Parse( n ); }
    Status api_write( Json::StructuredData& d, const char* n, TS::uint32 i, char c ) { return d.Write( n, i, c ); }
    void api_status_text( Status s, TS::String<256>* o ) { *o = Json::StatusToString( s ); }
    void api_result_text( const Json::ParseResult& r, TS::String<256>* o ) { *o = Json::ParseResultToString( r ); }
    const char* api_version() { return Json::GetVersion(); }
    const Json::Value* api_root( const Json::StructuredData& d ) { return d.GetRootJsonValue(); }
    Json::Value* api_root_mutable( Json::StructuredData& d ) { return d.GetRootJsonValue(); }
    const void* api_string( const Json::Value* v ) { return v->GetDataAsPointerTo<TS::String<>>(); }
    const void* api_number( const Json::Value* v ) { return v->GetDataAsPointerTo<double>(); }
    const void* api_bool( const Json::Value* v ) { return v->GetDataAsPointerTo<bool>(); }
    const void* api_null( const Json::Value* v ) { return v->GetDataAsPointerTo<Json::Null>(); }
    const void* api_array( const Json::Value* v ) { return v->GetDataAsPointerTo<TS::Array<Json::Value*>>(); }
    const void* api_object( const Json::Value* v ) { return v->AsJsonObjectValue(); }
    void* api_string_mutable( Json::Value* v ) { return v->GetDataAsPointerTo<TS::String<>>(); }
    void* api_number_mutable( Json::Value* v ) { return v->GetDataAsPointerTo<double>(); }
    void* api_bool_mutable( Json::Value* v ) { return v->GetDataAsPointerTo<bool>(); }
    void* api_null_mutable( Json::Value* v ) { return v->GetDataAsPointerTo<Json::Null>(); }
    void* api_array_mutable( Json::Value* v ) { return v->GetDataAsPointerTo<TS::Array<Json::Value*>>(); }
    void* api_object_mutable( Json::Value* v ) { return v->AsJsonObjectValue(); }
    const void* api_find_string( const Json::ObjectValue* o, const char* n ) { return o->FindString( n ); }
    const void* api_find_number( const Json::ObjectValue* o, const char* n ) { return o->FindNumber( n ); }
    const void* api_find_bool( const Json::ObjectValue* o, const char* n ) { return o->FindBool( n ); }
    const void* api_find_null( const Json::ObjectValue* o, const char* n ) { return o->FindJsonNull( n ); }
    const void* api_find_array( const Json::ObjectValue* o, const char* n ) { return o->FindJsonValueArray( n ); }
    const void* api_find_object( const Json::ObjectValue* o, const char* n ) { return o->FindJsonObjectValue( n ); }
    int api_iterate( const Json::ObjectValue* o ) { int n = 0; for ( const auto* e : *o ) n += e->GetKey().GetStringLength(); return n; }
}

#define MATRIX( ID, ... )                                                                              \
    extern "C" Status api_deserialize_##ID( Json::StructuredData& d, __VA_ARGS__& x ) { return d.DeserializeTo( x ); }           \
    extern "C" Status api_validate_##ID( const Json::StructuredData& d, const __VA_ARGS__& x ) { return Json::Validate( d, x ); } \
    extern "C" Status api_serialize_##ID( Json::StructuredData& d, const __VA_ARGS__& x ) { return d.SerializeFrom( x ); }

MATRIX( string, TS::String<> )
MATRIX( number, double )
MATRIX( bool, bool )
MATRIX( null, Json::Null )
MATRIX( array_string, TS::Array<TS::String<>> )
MATRIX( array_number, TS::Array<double> )
MATRIX( array_bool, TS::Array<bool> )
MATRIX( array_null, TS::Array<Json::Null> )
MATRIX( array_array, TS::Array<TS::Array<double>> )
MATRIX( map_string, Json::ObjectMap<TS::String<>> )
MATRIX( map_number, Json::ObjectMap<double> )
MATRIX( map_bool, Json::ObjectMap<bool> )
MATRIX( map_null, Json::ObjectMap<Json::Null> )
MATRIX( user, In )
MATRIX( array_user, TS::Array<In> )
MATRIX( map_user, Json::ObjectMap<In> )
MATRIX( member, Mem )
MATRIX( array_member, TS::Array<Mem> )
MATRIX( map_member, Json::ObjectMap<Mem> )
#ifndef JSON4C4_DISABLE_STD_SUPPORT
MATRIX( stdstring, std::string )
MATRIX( vector_string, std::vector<std::string> )
MATRIX( vector_number, std::vector<double> )
MATRIX( vector_bool, std::vector<bool> )
MATRIX( vector_null, std::vector<Json::Null> )
MATRIX( stdmap_string, std::map<std::string, std::string> )
MATRIX( stdmap_number, std::map<std::string, double> )
MATRIX( stdmap_bool, std::map<std::string, bool> )
MATRIX( stdmap_null, std::map<std::string, Json::Null> )
MATRIX( vector_user, std::vector<In> )
MATRIX( stdmap_user, std::map<std::string, In> )
MATRIX( vector_member, std::vector<Mem> )
MATRIX( stdmap_member, std::map<std::string, Mem> )
#endif
