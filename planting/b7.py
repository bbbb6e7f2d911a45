from lib import *
import shutil
OLD={i:open(f'/verif/seeded/{i}/demo.cpp').read() for i in ('c01-unknown-id-truncates-file',)}
def body(s): # strip the prelude
    k='static int fail( const std::string& m ) { std::cout << "FAIL: " << m << std::endl; return 1; }\n'
    return s.split(k,1)[1]
DM='api/DocumentManager.cpp'
seed('c01-unknown-id-truncates-file','C01','writeToFile with an id that is not live, on a path where a file already exists',
 'the documented unknown id answer is that nothing is written, but the existing file is emptied',
 [(DM,'#include "mx/utility/Throw.h"\n','#include "mx/utility/Throw.h"\n#include <fstream>\n'),
  (DM,'''const std::string& filePath ) const
        {
''','''const std::string& filePath ) const
        {
            // find out whether the file can be written before anything is converted
            if( !std::ofstream{ filePath.c_str() }.is_open() )
            {
                MX_THROW( "the file cannot be written: " + filePath );
            }

''')], body(OLD['c01-unknown-id-truncates-file']))
NEWF='''
#include <new>
static thread_local long gLeft = -1;
void* operator new( std::size_t n ) { if( gLeft > 0 && --gLeft == 0 ) throw std::bad_alloc{}; void* p = std::malloc( n ? n : 1 ); if( !p ) throw std::bad_alloc{}; return p; }
void operator delete( void* p ) noexcept { std::free( p ); }
void operator delete( void* p, std::size_t ) noexcept { std::free( p ); }
'''
seed('c04-lock-kept-on-throw','C04','getData fails with an exception (an allocation fails while the score is extracted), then any other manager call',
 'the manager mutex stays locked after a failed getData, so the next call blocks for ever',
 [(DM,'''ScoreData DocumentManager::getData( int documentId ) const
        {
            LOCK_DOCUMENT_MANAGER
            
            const DocumentMap::const_iterator it = myImpl->myMap.find( documentId );
            
            if( it == myImpl->myMap.cend() )
            {
                return ScoreData{};
            }
''','''ScoreData DocumentManager::getData( int documentId ) const
        {
            myImpl->myMutex.lock();
            
            const DocumentMap::const_iterator it = myImpl->myMap.find( documentId );
            
            if( it == myImpl->myMap.cend() )
            {
                myImpl->myMutex.unlock();
                return ScoreData{};
            }
'''),(DM,'''                score.musicXmlType = "timewise";
            }
            return score;
''','''                score.musicXmlType = "timewise";
            }
            myImpl->myMutex.unlock();
            return score;
''')],NEWF+'''
int main()
{
    alarm( 60 ); int a = load( doc( "one" ) ); auto& m = DocumentManager::getInstance(); const auto want = m.getData( a );
    for( long k : { 1, 2, 5, 10, 20, 50, 100 } )
    {
        gLeft = k; bool bad = false; try { m.getData( a ); } catch( std::exception& ) { bad = true; } gLeft = -1;
        std::thread t( [&] { save( a ); m.getUniqueId(); } ); t.join();
        if( !( m.getData( a ) == want ) ) return fail( "changed" );
        if( !bad ) break;
    }
    return 0;
}
''')
seed('c04-lock-held-while-reading','C04','a thread reads a document from a pipe-like stream whose producer uses the document manager',
 'createFromStream holds the manager mutex while it waits for the bytes, so producer and consumer wait for each other for ever',
 [(DM,'''            auto xdoc = ::ezxml::XFactory::makeXDoc();
            xdoc->loadStream( stream );            
''','''            LOCK_DOCUMENT_MANAGER
            auto xdoc = ::ezxml::XFactory::makeXDoc();
            xdoc->loadStream( stream );            
'''),(DM,'''                MX_THROW( messages.str() );
            }
            
            LOCK_DOCUMENT_MANAGER
            myImpl->myMap[myImpl->myCurrentId] = std::move( mxdoc );
            return myImpl->myCurrentId++;
        }
        
        
        int DocumentManager::createFromScore''','''                MX_THROW( messages.str() );
            }
            
            myImpl->myMap[myImpl->myCurrentId] = std::move( mxdoc );
            return myImpl->myCurrentId++;
        }
        
        
        int DocumentManager::createFromScore''')],'''
#include <condition_variable>
struct Pipe : std::streambuf
{
    std::mutex m; std::condition_variable c; std::string data; bool done = false; char buf[16]; size_t pos = 0;
    int_type underflow() override { std::unique_lock<std::mutex> l( m ); c.wait( l, [&] { return done || pos < data.size(); } ); if( pos >= data.size() ) return traits_type::eof(); size_t n = std::min( sizeof buf, data.size() - pos ); memcpy( buf, data.data() + pos, n ); pos += n; setg( buf, buf, buf + n ); return traits_type::to_int_type( buf[0] ); }
};
int main()
{
    alarm( 20 ); Pipe p; auto& m = DocumentManager::getInstance(); int id = 0;
    std::thread t( [&] { std::istream is( &p ); id = m.createFromStream( is ); } );
    const std::string s = doc( "piped" );
    for( size_t i = 0; i < s.size(); i += 100 ) { usleep( 1000 ); m.getUniqueId(); std::lock_guard<std::mutex> l( p.m ); p.data += s.substr( i, 100 ); p.c.notify_all(); }
    { std::lock_guard<std::mutex> l( p.m ); p.done = true; p.c.notify_all(); }
    t.join(); return id > 0 ? 0 : 1;
}
''')
PD='ezxml/src/private/private/PugiDoc.cpp'
seed('d01-file-not-shortened','D01','a document is saved over a longer file',
 'the file is updated in place without being cut to the new length: what is left of the old document follows the new one',
 [(PD,'std::ofstream outfile( filename','''// keep the file when there is one already
        const bool isThere = std::ifstream( filename ).is_open();
        std::ofstream outfile( filename, isThere ? std::ios::in | std::ios::out : std::ios::out''')],'''
static std::string slurp( const char* f ) { std::ifstream i( f ); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main()
{
    auto& m = DocumentManager::getInstance(); int a = load( doc( "one", "<note><rest/><duration>4</duration></note>", 40 ) ), b = load( doc( "two" ) );
    m.writeToFile( a, "x.xml" ); m.writeToFile( b, "x.xml" );
    if( slurp( "x.xml" ) != save( b ) ) return fail( "not the document that was saved" );
    return m.getData( m.createFromFile( "x.xml" ) ) == m.getData( b ) ? 0 : fail( "other document" );
}
''')
