// irdump: prints an LLVM module as JSON for the Python analyses.
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static json::OStream* J;

static std::string tyname( Type* t )
{
    if ( t->isVoidTy() ) return "v";
    if ( t->isIntegerTy() ) return "i" + std::to_string( t->getIntegerBitWidth() );
    if ( t->isPointerTy() ) return "p";
    if ( t->isDoubleTy() ) return "f64";
    if ( t->isFloatTy() ) return "f32";
    if ( t->isX86_FP80Ty() ) return "f80";
    if ( t->isStructTy() ) return "s";
    if ( t->isVectorTy() ) return "x";
    if ( t->isArrayTy() ) return "a";
    return "?";
}
static uint64_t tysize( Type* t ) { return t->isSized() ? (uint64_t)DL->getTypeAllocSize( t ) : 0; }

static bool constAddr( const Constant* c, std::string& name, int64_t& off )
{
    APInt o( 64, 0 );
    const Value* b = c->stripAndAccumulateConstantOffsets( *DL, o, true );
    if ( auto* g = dyn_cast<GlobalValue>( b ) )
    {
        if ( auto* a = dyn_cast<GlobalAlias>( g ) ) g = a->getAliaseeObject();
        name = g->getName().str();
        off  = o.getSExtValue();
        return true;
    }
    return false;
}

static void val( const Value* v )
{
    J->arrayBegin();
    if ( auto* ci = dyn_cast<ConstantInt>( v ) )
    {
        J->value( "c" );
        J->value( ci->getBitWidth() );
        SmallString<40> s;
        ci->getValue().toString( s, 10, false );
        J->value( s.str() );
    }
    else if ( isa<ConstantPointerNull>( v ) )
        J->value( "n" );
    else if ( auto* cf = dyn_cast<ConstantFP>( v ) )
    {
        J->value( "d" );
        bool inexact;
        APFloat f = cf->getValueAPF();
        f.convert( APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &inexact );
        J->value( std::to_string( f.bitcastToAPInt().getZExtValue() ) );
    }
    else if ( isa<UndefValue>( v ) )
    {
        J->value( "u" );
        J->value( tyname( v->getType() ) );
    }
    else if ( auto* gv = dyn_cast<GlobalValue>( v ) )
    {
        J->value( "g" );
        std::string n; int64_t o;
        constAddr( gv, n, o );
        J->value( n );
        J->value( o );
    }
    else if ( auto* c = dyn_cast<Constant>( v ) )
    {
        std::string n; int64_t o;
        if ( c->getType()->isPointerTy() && constAddr( c, n, o ) )
        {
            J->value( "g" );
            J->value( n );
            J->value( o );
        }
        else if ( isa<ConstantAggregateZero>( v ) )
        {
            J->value( "z" );
            J->value( tyname( v->getType() ) );
        }
        else if ( auto* ce = dyn_cast<ConstantExpr>( v ); ce && ce->getOpcode() == Instruction::PtrToInt && constAddr( ce->getOperand( 0 ), n, o ) )
        {
            J->value( "g" );
            J->value( n );
            J->value( o );
        }
        else
        {
            J->value( "k" );
            std::string s;
            raw_string_ostream os( s );
            v->print( os );
            J->value( s.size() > 200 ? s.substr( 0, 200 ) : s );
        }
    }
    else if ( ids.count( v ) )
    {
        J->value( "v" );
        J->value( ids[ v ] );
    }
    else if ( isa<InlineAsm>( v ) )
        J->value( "asm" );
    else
    {
        J->value( "m" );
    }
    J->arrayEnd();
}

static void flat( const Constant* c, uint64_t off )
{
    if ( isa<ConstantAggregateZero>( c ) || isa<ConstantPointerNull>( c ) || isa<UndefValue>( c ) ) return;
    if ( auto* cs = dyn_cast<ConstantStruct>( c ) )
    {
        auto* sl = DL->getStructLayout( cs->getType() );
        for ( unsigned i = 0; i < cs->getNumOperands(); i++ ) flat( cs->getOperand( i ), off + sl->getElementOffset( i ) );
        return;
    }
    if ( auto* ca = dyn_cast<ConstantArray>( c ) )
    {
        uint64_t es = tysize( ca->getType()->getElementType() );
        for ( unsigned i = 0; i < ca->getNumOperands(); i++ ) flat( ca->getOperand( i ), off + i * es );
        return;
    }
    if ( auto* cd = dyn_cast<ConstantDataSequential>( c ) )
    {
        uint64_t es = cd->getElementByteSize();
        for ( unsigned i = 0; i < cd->getNumElements(); i++ ) flat( cd->getElementAsConstant( i ), off + i * es );
        return;
    }
    J->arrayBegin();
    J->value( (int64_t)off );
    J->value( (int64_t)tysize( c->getType() ) );
    val( c );
    J->arrayEnd();
}

static void loc( const Instruction& I )
{
    if ( const DebugLoc& d = I.getDebugLoc() )
    {
        J->attribute( "l", (int64_t)d.getLine() );
        if ( auto* s = dyn_cast_or_null<DIScope>( d.getScope() ) ) J->attribute( "f", s->getFilename() );
    }
}

int main( int argc, char** argv )
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile( argv[ 1 ], err, ctx );
    if ( !m ) { err.print( argv[ 0 ], errs() ); return 1; }
    DL = &m->getDataLayout();
    std::error_code ec;
    raw_fd_ostream out( argv[ 2 ], ec );
    json::OStream js( out );
    J = &js;
    J->objectBegin();
    J->attributeBegin( "globals" );
    J->objectBegin();
    for ( auto& g : m->globals() )
    {
        J->attributeBegin( g.getName() );
        J->objectBegin();
        J->attribute( "size", (int64_t)tysize( g.getValueType() ) );
        J->attribute( "const", g.isConstant() );
        J->attribute( "decl", g.isDeclaration() );
        J->attribute( "tls", g.isThreadLocal() );
        J->attribute( "dem", demangle( g.getName().str() ) );
        SmallVector<DIGlobalVariableExpression*, 1> dgs;
        g.getDebugInfo( dgs );
        if ( !dgs.empty() )
        {
            J->attribute( "file", dgs[ 0 ]->getVariable()->getFilename() );
            J->attribute( "line", (int64_t)dgs[ 0 ]->getVariable()->getLine() );
        }
        J->attributeBegin( "init" );
        J->arrayBegin();
        if ( g.hasInitializer() ) flat( g.getInitializer(), 0 );
        J->arrayEnd();
        J->attributeEnd();
        J->objectEnd();
        J->attributeEnd();
    }
    J->objectEnd();
    J->attributeEnd();
    J->attributeBegin( "functions" );
    J->objectBegin();
    for ( auto& F : *m )
    {
        ids.clear();
        int n = 0;
        J->attributeBegin( F.getName() );
        J->objectBegin();
        J->attribute( "dem", demangle( F.getName().str() ) );
        J->attribute( "decl", F.isDeclaration() );
        J->attribute( "nounwind", F.doesNotThrow() );
        J->attribute( "noreturn", F.doesNotReturn() );
        J->attribute( "addr", F.hasAddressTaken() );
        J->attribute( "ret", tyname( F.getReturnType() ) );
        J->attribute( "vararg", F.isVarArg() );
        if ( auto* sp = F.getSubprogram() )
        {
            J->attribute( "file", sp->getFilename() );
            J->attribute( "line", (int64_t)sp->getLine() );
        }
        J->attributeBegin( "args" );
        J->arrayBegin();
        for ( auto& a : F.args() )
        {
            ids[ &a ] = n++;
            J->arrayBegin();
            J->value( tyname( a.getType() ) );
            J->value( a.hasStructRetAttr() ? "sret" : a.hasByValAttr() ? "byval" : "" );
            J->value( (int64_t)( a.hasStructRetAttr() ? tysize( a.getParamStructRetType() ) : a.hasByValAttr() ? tysize( a.getParamByValType() ) : 0 ) );
            J->arrayEnd();
        }
        J->arrayEnd();
        J->attributeEnd();
        std::map<const BasicBlock*, int> bid;
        int nb = 0;
        for ( auto& B : F )
        {
            bid[ &B ] = nb++;
            for ( auto& I : B )
                if ( !I.getType()->isVoidTy() ) ids[ &I ] = n++;
        }
        J->attribute( "nvals", n );
        J->attributeBegin( "blocks" );
        J->arrayBegin();
        for ( auto& B : F )
        {
            J->arrayBegin();
            for ( auto& I : B )
            {
                if ( isa<DbgInfoIntrinsic>( I ) ) continue;
                J->objectBegin();
                J->attribute( "op", I.getOpcodeName() );
                if ( ids.count( &I ) )
                {
                    J->attribute( "d", ids[ &I ] );
                    J->attribute( "ty", tyname( I.getType() ) );
                }
                loc( I );
                if ( auto* x = dyn_cast<AllocaInst>( &I ) )
                {
                    J->attribute( "size", (int64_t)tysize( x->getAllocatedType() ) );
                    J->attributeBegin( "a" ); J->arrayBegin(); val( x->getArraySize() ); J->arrayEnd(); J->attributeEnd();
                }
                else if ( auto* x = dyn_cast<GEPOperator>( &I ) )
                {
                    J->attributeBegin( "a" ); J->arrayBegin(); val( x->getPointerOperand() ); J->arrayEnd(); J->attributeEnd();
                    MapVector<Value*, APInt> vo;
                    APInt co( 64, 0 );
                    bool ok = x->collectOffset( *DL, 64, vo, co );
                    J->attribute( "ok", ok );
                    J->attribute( "off", co.getSExtValue() );
                    J->attributeBegin( "idx" );
                    J->arrayBegin();
                    for ( auto& p : vo )
                    {
                        J->arrayBegin();
                        J->value( p.second.getSExtValue() );
                        val( p.first );
                        J->value( tyname( p.first->getType() ) );
                        J->arrayEnd();
                    }
                    J->arrayEnd();
                    J->attributeEnd();
                }
                else if ( auto* x = dyn_cast<CallBase>( &I ) )
                {
                    J->attributeBegin( "fn" ); val( x->getCalledOperand()->stripPointerCasts() ); J->attributeEnd();
                    J->attributeBegin( "a" ); J->arrayBegin();
                    for ( auto& a : x->args() ) val( a );
                    J->arrayEnd(); J->attributeEnd();
                    J->attribute( "nounwind", x->doesNotThrow() );
                    J->attributeBegin( "bv" ); J->arrayBegin();
                    for ( unsigned i = 0; i < x->arg_size(); i++ ) if ( x->isByValArgument( i ) ) { J->arrayBegin(); J->value( i ); J->value( (int64_t)tysize( x->getParamByValType( i ) ) ); J->arrayEnd(); }
                    J->arrayEnd(); J->attributeEnd();
                    if ( auto* y = dyn_cast<InvokeInst>( x ) )
                    {
                        J->attribute( "n", bid[ y->getNormalDest() ] );
                        J->attribute( "u", bid[ y->getUnwindDest() ] );
                    }
                }
                else if ( auto* x = dyn_cast<PHINode>( &I ) )
                {
                    J->attributeBegin( "in" ); J->arrayBegin();
                    for ( unsigned i = 0; i < x->getNumIncomingValues(); i++ )
                    {
                        J->arrayBegin(); J->value( bid[ x->getIncomingBlock( i ) ] ); val( x->getIncomingValue( i ) ); J->arrayEnd();
                    }
                    J->arrayEnd(); J->attributeEnd();
                }
                else if ( auto* x = dyn_cast<BranchInst>( &I ) )
                {
                    J->attributeBegin( "a" ); J->arrayBegin(); if ( x->isConditional() ) val( x->getCondition() ); J->arrayEnd(); J->attributeEnd();
                    J->attributeBegin( "t" ); J->arrayBegin();
                    for ( unsigned i = 0; i < x->getNumSuccessors(); i++ ) J->value( bid[ x->getSuccessor( i ) ] );
                    J->arrayEnd(); J->attributeEnd();
                }
                else if ( auto* x = dyn_cast<SwitchInst>( &I ) )
                {
                    J->attributeBegin( "a" ); J->arrayBegin(); val( x->getCondition() ); J->arrayEnd(); J->attributeEnd();
                    J->attribute( "def", bid[ x->getDefaultDest() ] );
                    J->attributeBegin( "cases" ); J->arrayBegin();
                    for ( auto& c : x->cases() )
                    {
                        J->arrayBegin(); J->value( (int64_t)c.getCaseValue()->getZExtValue() ); J->value( bid[ c.getCaseSuccessor() ] ); J->arrayEnd();
                    }
                    J->arrayEnd(); J->attributeEnd();
                }
                else
                {
                    if ( auto* x = dyn_cast<CmpInst>( &I ) ) J->attribute( "p", CmpInst::getPredicateName( x->getPredicate() ) );
                    if ( auto* x = dyn_cast<LoadInst>( &I ) ) J->attribute( "size", (int64_t)DL->getTypeStoreSize( x->getType() ) );
                    if ( auto* x = dyn_cast<StoreInst>( &I ) ) { J->attribute( "size", (int64_t)DL->getTypeStoreSize( x->getValueOperand()->getType() ) ); J->attribute( "sty", tyname( x->getValueOperand()->getType() ) ); }
                    if ( auto* x = dyn_cast<CastInst>( &I ) ) J->attribute( "from", tyname( x->getSrcTy() ) );
                    if ( isa<ICmpInst>( I ) || isa<BinaryOperator>( I ) ) J->attribute( "oty", tyname( I.getOperand( 0 )->getType() ) );
                    if ( auto* x = dyn_cast<ExtractValueInst>( &I ) ) { J->attributeBegin( "i" ); J->arrayBegin(); for ( unsigned k : x->indices() ) J->value( k ); J->arrayEnd(); J->attributeEnd(); }
                    if ( auto* x = dyn_cast<InsertValueInst>( &I ) ) { J->attributeBegin( "i" ); J->arrayBegin(); for ( unsigned k : x->indices() ) J->value( k ); J->arrayEnd(); J->attributeEnd(); }
                    if ( auto* x = dyn_cast<LandingPadInst>( &I ) )
                    {
                        J->attribute( "cleanup", x->isCleanup() );
                        J->attributeBegin( "cl" ); J->arrayBegin();
                        for ( unsigned i = 0; i < x->getNumClauses(); i++ ) { if ( x->isCatch( i ) ) val( x->getClause( i ) ); else { J->arrayBegin(); J->value( "filter" ); J->arrayEnd(); } }
                        J->arrayEnd(); J->attributeEnd();
                    }
                    J->attributeBegin( "a" ); J->arrayBegin();
                    for ( auto& o : I.operands() ) if ( !isa<LandingPadInst>( I ) ) val( o );
                    J->arrayEnd(); J->attributeEnd();
                }
                J->objectEnd();
            }
            J->arrayEnd();
        }
        J->arrayEnd();
        J->attributeEnd();
        J->objectEnd();
        J->attributeEnd();
    }
    J->objectEnd();
    J->attributeEnd();
    J->objectEnd();
    return 0;
}
