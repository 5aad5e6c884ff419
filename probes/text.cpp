// Entry for the text analysis: parse, walk through the document with the public interface, write it.  Analysed, never run.
#include "C4Json.h"
using namespace C4;
using Json::Status;
namespace TS = Terathon;

extern "C"
{
    void emit_result( int status, int line, int column );
    void emit_string( const char* text, long length );
    void emit_number( double value );
    void emit_bool( bool value );
    void emit_null();
    void emit_array( long count );
    void emit_object();
    void emit_end();
    void emit_key( const char* name, long length );
    void emit_nothing();
    void emit_write( int status );
}

static void walk( const Json::Value* value )
{
    if ( !value )
        emit_nothing();
    else if ( auto s = value->GetDataAsPointerTo<TS::String<>>() )
        emit_string( *s, s->GetStringLength() );
    else if ( auto n = value->GetDataAsPointerTo<double>() )
        emit_number( *n );
    else if ( auto b = value->GetDataAsPointerTo<bool>() )
        emit_bool( *b );
    else if ( value->GetDataAsPointerTo<Json::Null>() )
        emit_null();
    else if ( auto a = value->GetDataAsPointerTo<TS::Array<Json::Value*>>() )
    {
        emit_array( a->GetArrayElementCount() );
        for ( Json::Value* e : *a )
            walk( e );
    }
    else if ( auto o = value->AsJsonObjectValue() )
    {
        emit_object();
        for ( Json::Value* e : *o )
        {
            emit_key( e->GetKey(), e->GetKey().GetStringLength() );
            walk( e );
        }
        emit_end();
    }
    else
        emit_nothing();
}

extern "C"
{
    void drive_parse( const TS::Array<char>& text )
    {
        Json::StructuredData d;
        Json::ParseResult    r = d.Parse( text );
        emit_result( int( r.status ), r.errorLine, r.errorColumn );
        if ( r.status == Status::kOk )
            walk( d.GetRootJsonValue() );
    }

    void drive_write( const TS::Array<char>& text, unsigned indent, char c )
    {
        Json::StructuredData d;
        Json::ParseResult    r = d.Parse( text );
        emit_result( int( r.status ), r.errorLine, r.errorColumn );
        if ( r.status == Status::kOk )
        {
            walk( d.GetRootJsonValue() );
            emit_write( int( d.Write( "x", indent, c ) ) );
        }
    }
}
