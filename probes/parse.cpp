// Entry points of the parsing analysis: the public calls around a parse, and what a user can see of the document afterwards.
#include "Json4C4/C4Json.h"
namespace Json = C4::Json;
namespace TS   = Terathon;
using Json::Status;

extern "C"
{
    void sa_result( Status status, int line, int column, const void* old, const void* root );
    void sa_kind( int kinds );
    void sa_string( const char* text, int length );
    void sa_number( double number );
    void sa_bool( bool truth );
    void sa_array( void* elements, int count );
    void sa_object( const void* object );
    void sa_end();
}

// Stands for any nested value; the analysis creates these where the recursion is cut.
struct Opaque final : Json::Value
{
    double payload = 0;
    ~Opaque() override {}
    Status Write( C4::File&, TS::uint32, const char, TS::Array<char>& ) const override { return Status::kOk; }
};

extern "C" Json::Value* sa_make() { return new Opaque; }

extern "C" void sa_inspect( const Json::Value* v )
{
    const TS::String<>*             s = v->GetDataAsPointerTo<TS::String<>>();
    const double*                   n = v->GetDataAsPointerTo<double>();
    const bool*                     b = v->GetDataAsPointerTo<bool>();
    const Json::Null*               z = v->GetDataAsPointerTo<Json::Null>();
    const TS::Array<Json::Value*>*  a = v->GetDataAsPointerTo<TS::Array<Json::Value*>>();
    const Json::ObjectValue*        o = v->AsJsonObjectValue();

    sa_kind( ( s ? 1 : 0 ) + ( n ? 2 : 0 ) + ( b ? 4 : 0 ) + ( z ? 8 : 0 ) + ( a ? 16 : 0 ) + ( o ? 32 : 0 ) );
    if ( s )
        sa_string( *s, s->GetStringLength() );
    if ( n )
        sa_number( *n );
    if ( b )
        sa_bool( *b );
    if ( a )
        sa_array( a->begin(), a->GetArrayElementCount() );
    if ( o )
        sa_object( o );
}

extern "C" void sa_drop( Json::Value* v ) { delete v; }

// A value that the recursion produced: what is in it, then it goes.
extern "C" void h_value( Json::Value* v )
{
    sa_inspect( v );
    delete v;
    sa_end();
}

extern "C" void h_parse( const TS::Array<char>& text, bool before )
{
    Json::StructuredData d;
    if ( before )
    {
        bool x = true;
        if ( d.SerializeFrom( x ) != Status::kOk )
            return;
    }
    const void*       old = d.GetRootJsonValue();
    Json::ParseResult r   = d.Parse( text );
    const Json::Value* root = d.GetRootJsonValue();
    sa_result( r.status, r.errorLine, r.errorColumn, old, root );
    if ( root && root != old )
        sa_inspect( root );
    sa_end();
}
