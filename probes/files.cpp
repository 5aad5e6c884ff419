// Entry points of the file layer.
#include "Json4C4/C4Json.h"
namespace Json = C4::Json;
extern "C"
{
    Json::Status files_parse( Json::StructuredData& d, const char* n ) { return d.Parse( n ).status; }
    Json::Status files_write( Json::StructuredData& d, const char* n, unsigned i, char c ) { return d.Write( n, i, c ); }
}
