// Entries for the container analyses: one operation on a container in some state, then what it holds.  Analysed, never run.
#include "Json4C4/C4Json.h"
namespace TS = Terathon;

extern "C"
{
    void box_live( void* slot );          // an element begins
    void box_dead( void* slot );          // an element ends
    void box_use( const void* slot );     // an element is read, copied or moved from
    void box_fail();                      // may throw, when an element is built otherwise than by moving
    void box_did( int outcome );          // 0: the operation returned, 1: it threw; another number: its result
    void box_item( int value );           // what the container holds, in order
    void box_end();
    void box_found( int key, int value );
    void box_shape( int depth, int key );
    void box_text( const char* text, long length );
    void box_old();
    int  box_parameter( int k );
    const char* box_source( int k );
}

struct Item
{
    int value;
    Item() : value( -1 ) { box_fail(); box_live( this ); }
    explicit Item( int v ) : value( v ) { box_live( this ); }
    Item( const Item& i ) : value( i.value ) { box_use( &i ); box_fail(); box_live( this ); }
    Item( Item&& i ) noexcept : value( i.value ) { box_use( &i ); box_live( this ); }
    ~Item() { box_dead( this ); }
    Item& operator=( const Item& i ) { box_use( &i ); box_use( this ); value = i.value; return *this; }
    bool operator==( const Item& i ) const { box_use( &i ); box_use( this ); return value == i.value; }
    bool operator!=( const Item& i ) const { return !( *this == i ); }
};

template <class A>
static void items( const A& a )
{
    int n = a.GetArrayElementCount();
    box_shape( n, int( a.end() - a.begin() ) );
    for ( const Item& i : a )
    {
        box_use( &i );
        box_item( i.value );
    }
    box_end();
}

template <class A>
static void fill( A& a, int n, int extra )
{
    for ( int k = 0; k < n + extra; k++ )
        a.AppendArrayElement( Item( k ) );
    for ( int k = 0; k < extra; k++ )
        a.RemoveLastArrayElement();
}

template <class A>
static void array()
{
    A a;
    fill( a, box_parameter( 0 ), box_parameter( 1 ) );
    int op = box_parameter( 2 ), x = box_parameter( 3 );
    box_old();
    Item item( 100 ), other( 101 );
    try
    {
        switch ( op )
        {
            case 0: a.AppendArrayElement(); break;
            case 1: a.AppendArrayElement( item ); break;
            case 2: a.AppendArrayElement( static_cast<Item&&>( item ) ); break;
            case 3: a.InsertArrayElement( x, other ); break;
            case 4: a.InsertArrayElement( x, static_cast<Item&&>( item ) ); break;
            case 5: a.RemoveArrayElement( x ); break;
            case 6: a.RemoveLastArrayElement(); break;
            case 7: a.SetArrayElementCount( x ); break;
            case 8: a.SetArrayElementCount( x, item ); break;
            case 9: a.ReserveArrayElementCount( x ); break;
            case 10: a.ClearArray(); break;
            case 11: a.PurgeArray(); break;
            case 12:
            {
                A b( a );
                box_did( 0 );
                items( b );
                for ( int k = 0; k < 9; k++ )
                    b.AppendArrayElement( Item( 7 ) );
                break;
            }
            case 13:
            {
                A b( static_cast<A&&>( a ) );
                box_did( 0 );
                items( b );
                for ( int k = 0; k < 9; k++ )
                    b.AppendArrayElement( Item( 7 ) );
                break;
            }
            case 14: box_item( a.FindArrayElementIndex( Item( x ) ) ); break;
            // the argument is an element of the array itself
            case 15: a.AppendArrayElement( a[ x ] ); break;
            case 16: a.InsertArrayElement( x / 32, a[ x % 32 ] ); break;
            case 17: a.SetArrayElementCount( x / 32, a[ x % 32 ] ); break;
        }
        box_did( 0 );
    }
    catch ( ... )
    {
        box_did( 1 );
    }
    items( a );
    // it goes on working
    try
    {
        a.AppendArrayElement( Item( 55 ) );
        a.InsertArrayElement( 0, Item( 56 ) );
        a.RemoveArrayElement( 1 );
        for ( int k = 0; k < 17; k++ )
            a.AppendArrayElement( Item( 60 + k ) );
        box_did( 0 );
    }
    catch ( ... )
    {
        box_did( 1 );
    }
    items( a );
}

struct Thing : TS::MapElement<Thing>
{
    struct Key
    {
        int value;
        bool operator<( const Key& k ) const { return value < k.value; }
        bool operator>( const Key& k ) const { return value > k.value; }
        bool operator==( const Key& k ) const { return value == k.value; }
        bool operator!=( const Key& k ) const { return value != k.value; }
        bool operator<=( const Key& k ) const { return value <= k.value; }
        bool operator>=( const Key& k ) const { return value >= k.value; }
    };
    using KeyType = Key;
    Key key;
    int value;
    Thing( int k, int v ) : key { k }, value( v ) { box_live( this ); }
    ~Thing() override { box_dead( this ); }
    const Key& GetKey() const { return key; }
};
using Things = TS::Map<Thing>;

static void shape( const Thing* t, int depth )
{
    if ( !t )
        return;
    shape( t->GetLeftSubnode(), depth + 1 );
    box_shape( depth, t->key.value );
    shape( t->GetRightSubnode(), depth + 1 );
}

static void things( const Things& m )
{
    shape( m.GetRootMapElement(), 0 );
    box_end();
    for ( const Thing* t : m )
    {
        box_use( t );
        box_item( t->key.value );
        box_item( t->value );
    }
    box_end();
    for ( const Thing* t = m.GetLastMapElement(); t; t = t->GetPreviousMapElement() )
        box_item( t->key.value );
    box_end();
    box_item( m.GetMapElementCount() );
    box_item( m.Empty() );
    box_item( m.GetFirstMapElement() ? m.GetFirstMapElement()->key.value : -1 );
    box_end();
}

// an element is taken over from another map, where it is a leaf, the root, or alone
static int taken( Things& m, int k, int v, int kind, bool replace )
{
    Things o;
    Thing* t = new Thing( k, v );
    if ( kind == 0 )
        o.InsertMapElement( new Thing( k + 100, 1 ) );
    o.InsertMapElement( t );
    if ( kind < 2 )
    {
        o.InsertMapElement( new Thing( k + 200, 1 ) );
        o.InsertMapElement( new Thing( k - 100, 1 ) );
    }
    int others = kind == 0 ? 3 : kind == 1 ? 2 : 0, n = 0;
    Thing* old = nullptr;
    bool in = true;
    if ( replace )
        old = m.InsertReplaceMapElement( t );
    else
        in = m.InsertMapElement( t );
    for ( const Thing* x : o )
    {
        box_use( x );
        n += x == t ? 100 : 1;
    }
    bool right = m.Member( t ) == in && o.Member( t ) != in && n == others + ( in ? 0 : 100 ) && o.Empty() == ( n == 0 );
    delete old;
    return !right ? 19 : old || !in ? 11 : 10;
}

static int thing( Things& m, int op, int k, int v )
{
    switch ( op )
    {
        case 0:
        {
            Thing* t = new Thing( k, v );
            if ( m.InsertMapElement( t ) )
                return m.Member( t ) ? 10 : 19;
            delete t;
            return 11;
        }
        case 1:
        {
            Thing* t = m.FindMapElement( Thing::Key { k } );
            if ( !t )
                return 12;
            m.RemoveMapElement( t );
            int r = m.Member( t ) ? 19 : 10;
            delete t;
            return r;
        }
        case 2:
        {
            delete m.FindMapElement( Thing::Key { k } );
            return 10;
        }
        case 3:
        {
            Thing* t = new Thing( k, v );
            Thing* o = m.InsertReplaceMapElement( t );
            if ( !o )
                return 10;
            delete o;
            return 11;
        }
        case 4:
        {
            TS::MapReservation r;
            if ( !m.ReserveMapElement( Thing::Key { k }, &r ) )
                return 11;
            m.InsertMapElement( new Thing( k, v ), &r );
            return 10;
        }
        case 5:
            m.PurgeMap();
            return 10;
        case 8:
        case 9:
        case 10:
            return taken( m, k, v, op - 8, false );
        case 11:
        case 12:
        case 13:
            return taken( m, k, v, op - 11, true );
        case 14:
        case 15:
        {
            // an element that is in the map already
            Thing* t = m.FindMapElement( Thing::Key{ k } );
            if ( !t )
                return 12;
            if ( op == 14 )
                return m.InsertMapElement( t ) ? 10 : 11;
            return m.InsertReplaceMapElement( t ) ? 11 : 10;
        }
        case 6:
        {
            // the elements go on living outside the map
            Thing* all[ 64 ];
            int    n = 0;
            for ( Thing* t : m )
                all[ n++ ] = t;
            m.RemoveAllMapElements();
            for ( int a = 0; a < n; a++ )
                delete all[ a ];
            return 10;
        }
        case 7:
            return m[ k ] ? 1000 + m[ k ]->key.value : 12;
    }
    return 18;
}

template <class S>
static void show( const S& s )
{
    box_text( s, s.GetStringLength() );
}

template <class N>
static N number()
{
    return N( ( TS::uint64( unsigned( box_parameter( 3 ) ) ) << 32 ) | unsigned( box_parameter( 4 ) ) );
}

static void more( TS::String<>& s, int op )
{
    switch ( op )
    {
        case 30: s.PurgeString(); break;
        case 31: s.ReplaceChar( 'a', 'b' ); break;
        case 32: s.ConvertToLowerCase(); break;
        case 33: s.ConvertToUpperCase(); break;
    }
}

static void more( TS::String<20>&, int ) {}

template <class S>
static void string( S& s, S& o, int op, int x )
{
    box_old();
    try
    {
        switch ( op )
        {
            case 0: break;
            case 1: s = o; break;
            case 2: s = box_source( 1 ); break;
            case 3: s += o; break;
            case 4: s += box_source( 1 ); break;
            case 5: s += box_source( 1 )[ 0 ]; break;
            case 6: s.Set( box_source( 1 ), x ); break;
            case 7: s.AppendString( box_source( 1 ), x ); break;
            case 8: s.SetStringLength( x ); break;
            case 9: { S t( s ); s = ""; box_did( 2 ); show( t ); break; }
            case 10: { S t( static_cast<S&&>( s ) ); box_did( 2 ); show( t ); break; }
            case 11: { S t( box_source( 1 ), x ); box_did( 2 ); show( t ); break; }
            case 12: s = static_cast<S&&>( o ); break;
            case 13: { S& q = s; s = q; break; }
            case 14: { S t = s + box_source( 1 ); box_did( 2 ); show( t ); break; }
            case 15: box_item( ( s == o ) + 2 * ( s != o ) + 4 * ( s == box_source( 1 ) ) + 8 * ( s < (const char*) box_source( 1 ) ) ); break;
            case 16: { S t( box_source( 1 ) ); s = static_cast<S&&>( t ); break; }
            case 17: { S t; box_did( 2 ); show( t ); t = s; box_did( 2 ); show( t ); break; }
            case 18: { S& q = s; s = static_cast<S&&>( q ); break; }
            case 19: s += number<int>(); break;
            case 20: s += number<unsigned int>(); break;
            case 21: s += number<TS::int64>(); break;
            case 22: s += number<TS::uint64>(); break;
            case 23: s = number<int>(); break;
            case 24: s = number<TS::int64>(); break;
            case 25: { S t = s + number<int>(); box_did( 2 ); show( t ); break; }
            case 26: { S t = s + number<TS::int64>(); box_did( 2 ); show( t ); break; }
            case 27: { S t( number<int>() ); box_did( 2 ); show( t ); break; }
            case 28: { S t( number<TS::int64>() ); box_did( 2 ); show( t ); break; }
            case 29: { S& q = s; s += q; break; }
            default: more( s, op );
        }
        box_did( 0 );
    }
    catch ( ... )
    {
        box_did( 1 );
    }
    show( s );
    show( o );
    try
    {
        s += "tail of some length";
        box_did( 0 );
    }
    catch ( ... )
    {
        box_did( 1 );
    }
    show( s );
}

template <class S>
static void string()
{
    // the string comes to its text in one of several ways
    int op = box_parameter( 0 ), x = box_parameter( 1 ), way = box_parameter( 2 );
    S   first( box_source( 0 ) ), o( box_source( 1 ) );
    S   s;
    if ( way == 0 )
        s = box_source( 0 );
    else if ( way == 2 )
    {
        s = "a text that is longer than the storage inside a string and is overwritten later on";
        s.SetStringLength( 33 );
        s = box_source( 0 );
    }
    else if ( way == 3 )
    {
        s += first;
        s += "a text that goes away again";
        s.SetStringLength( first.GetStringLength() );
    }
    else if ( way == 4 )
        s = static_cast<S&&>( first );
    else if ( way == 5 )
    {
        s = first;
        s += box_source( 2 );
        s.SetStringLength( first.GetStringLength() );
    }
    if ( way == 1 )
    {
        S t( first );
        string( t, o, op, x );
    }
    else
        string( s, o, op, x );
}
extern "C"
{
    void box_array() { array<TS::Array<Item>>(); }
    void box_array4() { array<TS::Array<Item, 4>>(); }

    void box_map()
    {
        Things m;
        int    n = box_parameter( 0 );
        for ( int k = 0; k < n; k++ )
            thing( m, 0, box_parameter( 1 + k ), k );
        things( m );
        box_old();
        int ops = box_parameter( 1 + n );
        for ( int k = 0; k < ops; k++ )
        {
            box_did( thing( m, box_parameter( 2 + n + 2 * k ), box_parameter( 3 + n + 2 * k ), 500 + k ) );
            things( m );
        }
        for ( int k = -1; k <= 2 * n + 2; k++ )
        {
            Thing* t = m.FindMapElement( Thing::Key { k } );
            box_found( k, t ? t->value : -1 );
        }
    }

    void box_string() { string<TS::String<>>(); }
    void box_string20() { string<TS::String<20>>(); }
}
