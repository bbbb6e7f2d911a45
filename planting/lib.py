import subprocess, os, json
R='/tmp/seedw/repo/Sourcecode/private/mx/'
DEMO='''#!/bin/bash
# Exit 0 when the library behaves, non-zero when it does not. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
P=/repo/Sourcecode/private
g++ -std=c++17 -w -O1 -g -include cstdint%s -I/repo/Sourcecode/include -I$P -I$P/mx/ezxml/src/include -I$P/mx/ezxml/src/private "$D/demo.cpp" %s -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
'''
PRE='''#include "mx/api/DocumentManager.h"
#include "mx/api/ScoreData.h"
#include "mx/core/Document.h"
#include "ezxml/XFactory.h"
#include "ezxml/XDoc.h"
#include "ezxml/XElement.h"
#include "ezxml/XElementIterator.h"
#include "ezxml/XAttribute.h"
#include "ezxml/XAttributeIterator.h"
#include <sstream>
#include <iostream>
#include <fstream>
#include <thread>
#include <vector>
#include <string>
#include <set>
#include <mutex>
#include <atomic>
#include <functional>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <stdexcept>
#include <unistd.h>
using mx::api::DocumentManager;
static std::string doc( const std::string& title, const std::string& note = "<note><pitch><step>C</step><octave>4</octave></pitch><duration>4</duration><voice>1</voice><type>whole</type></note>", int measures = 1 )
{
    std::string s = "<?xml version=\\"1.0\\" encoding=\\"UTF-8\\"?>\\n<score-partwise version=\\"3.0\\"><work><work-title>" + title + "</work-title></work><part-list><score-part id=\\"P1\\"><part-name>Music</part-name></score-part></part-list><part id=\\"P1\\">";
    for( int i = 1; i <= measures; i++ ) s += "<measure number=\\"" + std::to_string( i ) + "\\">" + ( i == 1 ? "<attributes><divisions>1</divisions></attributes>" : "" ) + note + "</measure>";
    return s + "</part></score-partwise>\\n";
}
static int load( const std::string& s ) { std::istringstream is( s ); return DocumentManager::getInstance().createFromStream( is ); }
static std::string save( int id ) { std::ostringstream os; DocumentManager::getInstance().writeToStream( id, os ); return os.str(); }
static int fail( const std::string& m ) { std::cout << "FAIL: " << m << std::endl; return 1; }
'''
def seed(id,prop,needs,breaks,edits,demo,flags='',link='/repo/_build/libmx.a',pre=True):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not subprocess.run(['git','-C','/tmp/seedw/repo','status','--short'],stdout=subprocess.PIPE).stdout
    try:
        for f,old,new in edits:
            p=R+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old),old); open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C','/tmp/seedw/repo','diff'],stdout=subprocess.PIPE,text=True).stdout
    finally: subprocess.run(['git','-C','/tmp/seedw/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write((PRE if pre else '')+demo)
    open(d+'/demo.sh','w').write(DEMO%(flags,link))
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    print(id,len(diff.splitlines()))
