from lib import *
PD='ezxml/src/private/private/PugiDoc.cpp'
seed('d01-file-not-shortened','D01','a document is saved over a longer file',
 'the file is updated in place without being cut to the new length: what is left of the old document follows the new one',
 [(PD,'std::ofstream outfile( filename.c_str() );','''// keep the file when there is one already
        const bool isThere = std::ifstream( filename ).is_open();
        std::ofstream outfile( filename, isThere ? std::ios::in | std::ios::out : std::ios::out );''')],'''
static std::string slurp( const char* f ) { std::ifstream i( f ); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main()
{
    auto& m = DocumentManager::getInstance(); int a = load( doc( "one", "<note><rest/><duration>4</duration></note>", 40 ) ), b = load( doc( "two" ) );
    m.writeToFile( a, "x.xml" ); m.writeToFile( b, "x.xml" );
    if( slurp( "x.xml" ) != save( b ) ) return fail( "not the document that was saved" );
    return m.getData( m.createFromFile( "x.xml" ) ) == m.getData( b ) ? 0 : fail( "other document" );
}
''')
