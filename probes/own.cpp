// Entries for the ownership analysis: documents and objects live, are used in some order and die.  Analysed, never run.
#include "Json4C4/C4Json.h"
namespace Json = C4::Json;
namespace TS   = Terathon;
using Json::Status;

struct Leaf
{
    double            x = 0;
    TS::String<>      s;
    TS::Array<double> v;
};
#define LEAF_PROTO "x", object.x, Json::optional, "s", object.s, Json::optional, "v", object.v
DEFINE_JSON4C4_FUNCTIONS( Leaf, LEAF_PROTO )

class Node
{
public:
    bool                    b = false;
    TS::String<>            s;
    Leaf                    leaf;
    TS::Array<TS::String<>> names;
    Json::Null              none;
#define NODE_PROTO Json::optional, "b", b, "s", s, Json::optional, "leaf", leaf, Json::optional, "names", names, Json::optional, "none", none
    DEFINE_JSON4C4_MEMBER_FUNCTIONS( NODE_PROTO )
};

// maps cannot be copied, so this type cannot be an element
struct Tree
{
    Json::ObjectMap<Leaf>         leaves;
    Json::ObjectMap<TS::String<>> strings;
};
#define TREE_PROTO Json::optional, "s", object.strings, Json::optional, "leaves", object.leaves
DEFINE_JSON4C4_FUNCTIONS( Tree, TREE_PROTO )

extern "C"
{
    int next_op();    // the next step of the history, which the analysis decides
    const TS::Array<char>& text_of( int which );
}

template <class T>
static void start( T& )
{
}
static void start( double& number )
{
    number = 0;
}

template <class T>
static void life()
{
    T object;
    start( object );
    {
        Json::StructuredData d;
        int                  op;
        while ( ( op = next_op() ) >= 0 )
        {
            if ( op < 10 )
                d.Parse( text_of( op ) );
            else if ( op == 10 )
                d.Parse( "in" );
            else if ( op == 11 )
                d.DeserializeTo( object );
            else if ( op == 12 )
                d.SerializeFrom( object );
            else if ( op == 13 )
                d.Write( "out", 2, ' ' );
            else if ( op == 14 )
                Json::Validate( d, object );
            else if ( op == 15 )
            {
                T other;
                start( other );
                d.DeserializeTo( other );
            }
            else if ( op == 16 )
            {
                if ( Json::Value* root = d.GetRootJsonValue() )
                {
                    Json::Serialize( root, "n", object );
                    Json::Serialize( root, "n", 1.5 );
                }
            }
            else if ( op == 17 )
            {
                if ( const Json::Value* root = d.GetRootJsonValue() )
                    if ( auto o = root->AsJsonObjectValue() )
                    {
                        o->FindString( "s" );
                        o->FindNumber( "a name that is longer than the others" );
                    }
            }
            else if ( op == 18 )
            {
                T other;
                start( other );
                Json::StructuredData e;
                e.SerializeFrom( object );
                e.DeserializeTo( other );
                d.DeserializeTo( other );
            }
        }
    }
}

extern "C"
{
    void life_string() { life<TS::String<>>(); }
    void life_number() { life<double>(); }
    void life_null() { life<Json::Null>(); }
    void life_leaf() { life<Leaf>(); }
    void life_node() { life<Node>(); }
    void life_tree() { life<Tree>(); }
    void life_strings() { life<TS::Array<TS::String<>>>(); }
    void life_leaves() { life<TS::Array<Leaf>>(); }
    void life_nodes() { life<TS::Array<Node>>(); }
    void life_arrays() { life<TS::Array<TS::Array<TS::String<>>>>(); }
    void life_map_string() { life<Json::ObjectMap<TS::String<>>>(); }
    void life_map_leaf() { life<Json::ObjectMap<Leaf>>(); }
    void life_map_node() { life<Json::ObjectMap<Node>>(); }
    void life_map_array() { life<Json::ObjectMap<TS::Array<TS::String<>>>>(); }
#ifndef JSON4C4_DISABLE_STD_SUPPORT
    void life_stdstring() { life<std::string>(); }
    void life_vector_string() { life<std::vector<std::string>>(); }
    void life_vector_leaf() { life<std::vector<Leaf>>(); }
    void life_vector_node() { life<std::vector<Node>>(); }
    void life_vector_bool() { life<std::vector<bool>>(); }
    void life_stdmap_string() { life<std::map<std::string, std::string>>(); }
    void life_stdmap_leaf() { life<std::map<std::string, Leaf>>(); }
    void life_stdmap_node() { life<std::map<std::string, Node>>(); }
#endif
}
