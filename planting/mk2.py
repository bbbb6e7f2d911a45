import subprocess,sys
R='/tmp/seedw/repo'; S='Sourcecode/private/mx/'
T=[]
def t(id,prop,*eds): T.append((id,prop,eds))
DM=S+'api/DocumentManager.cpp'
t('n-c01-bracket','C01',(DM,"""            const DocumentMap::const_iterator it = myImpl->myMap.find( documentId );
            
            if( it == myImpl->myMap.cend() )
            {
                return mx::core::DocumentPtr{};
            }
            
            return it->second;""","""            return myImpl->myMap[documentId];"""))
t('n-c01-destroy2','C01',(DM,"""            LOCK_DOCUMENT_MANAGER
            const DocumentMap::const_iterator it = myImpl->myMap.find( documentId );
            
            if( it == myImpl->myMap.cend() )
            {
                return;
            }
            
            myImpl->myMap.erase( it );""","""            DocumentMap::const_iterator it;
            {
                LOCK_DOCUMENT_MANAGER
                it = myImpl->myMap.find( documentId );

                if( it == myImpl->myMap.cend() )
                {
                    return;
                }
            }
            LOCK_DOCUMENT_MANAGER
            myImpl->myMap.erase( it );"""))
t('n-c01-getdata2','C01',(DM,"""            LOCK_DOCUMENT_MANAGER
            
            const DocumentMap::const_iterator it = myImpl->myMap.find( documentId );
            
            if( it == myImpl->myMap.cend() )
            {
                return ScoreData{};
            }
""","""            if( !getDocument( documentId ) )
            {
                return ScoreData{};
            }

            LOCK_DOCUMENT_MANAGER
            const DocumentMap::const_iterator it = myImpl->myMap.lower_bound( documentId );

            if( it == myImpl->myMap.cend() )
            {
                return ScoreData{};
            }
"""))
t('n-c01-reuse','C01',(DM,"            myImpl->myMap.erase( it );","""            myImpl->myMap.erase( it );

            if( documentId == myImpl->myCurrentId - 1 && myImpl->myMap.empty() )
            {
                --myImpl->myCurrentId;
            }"""))
PD=S+'ezxml/src/private/private/PugiDoc.cpp'
t('n-c04-openloop','C04',(PD,"""        std::ofstream outfile( filename.c_str() );
        if( !outfile.is_open() )
        {""","""        std::ofstream outfile( filename.c_str() );
        while( !outfile.is_open() && !filename.empty() )
        {
            outfile.clear();
            outfile.open( filename.c_str() );
        }
        if( !outfile.is_open() )
        {"""))
t('n-c04-flushloop','C04',(PD,"""        saveStream( outfile );
        outfile.close();

        if( !outfile )""","""        saveStream( outfile );

        while( !outfile.flush() )
        {
            outfile.clear();
        }
        outfile.close();

        if( !outfile )"""))
PW=S+'impl/PartWriter.cpp'
src=open(R+'/'+PW).read()
t('n-c05-own','C05',(PW,"ss << api::DocumentManager::getInstance().getUniqueId();","static std::atomic<int> nextId{ 1000000 };\n                    ss << nextId++;"),(PW,"namespace mx\n","#include <atomic>\n\nnamespace mx\n"))
t('n-c05-loadstore','C05',(DM,"""            LOCK_DOCUMENT_MANAGER
            int returnValue = myImpl->myCurrentUniqueId;
            ++myImpl->myCurrentUniqueId;
            return returnValue;""","""            const int returnValue = myImpl->myCurrentUniqueId.load();
            myImpl->myCurrentUniqueId.store( returnValue + 1 );
            return returnValue;"""),(DM,"            int myCurrentUniqueId;","            std::atomic<int> myCurrentUniqueId;"),(DM,'#define LOCK_DOC','#include <atomic>\n\n#define LOCK_DOC'))
t('n-h03-grave','H03',(DM,"            myImpl->myMap.erase( it );","            static mx::core::DocumentPtr last;\n            last = it->second;\n            myImpl->myMap.erase( it );"))
t('n-h02-alias','H02',(DM,"            return it->second;\n        }\n\n        int","            return it->second->getChoice() == core::DocumentChoice::timewise ? mx::core::DocumentPtr( it->second.get(), []( mx::core::Document* ){} ) : it->second;\n        }\n\n        int"))
SC=S+'core/ScoreConversions.cpp'
t('n-h01-twhdr','H01',(SC,"            score_new->setScoreHeaderGroup( inScore->getScoreHeaderGroup() );\n            auto attr_old = inScore->getAttributes();\n            auto attr_new = score_new->getAttributes();\n            attr_new->hasVersion = attr_old->hasVersion;\n            attr_new->version = attr_old->version;\n            PartwisePartSet","            score_new->setScoreHeaderGroup( inScore->getScoreHeaderGroup() );\n            const auto attr_old = inScore->getAttributes();\n            attr_old->hasVersion = true;\n            auto attr_new = score_new->getAttributes();\n            attr_new->hasVersion = attr_old->hasVersion;\n            attr_new->version = attr_old->version;\n            PartwisePartSet"))
EI=S+'core/ElementInterface.cpp'
t('n-c02-hascontents','C02',(EI,"""            utility::StringStream ss;
            bool discard;
            streamContents( ss, 0, discard );
            return ( ss.str() ).length() > 0;""","""            static thread_local int depth = 0;
            static bool result = false;
            ++depth;
            utility::StringStream ss;
            bool discard;
            streamContents( ss, 0, discard );
            --depth;
            result = ( ss.str() ).length() > 0;
            return result;"""))
t('n-f06-hascontents','F06',(EI,"""            utility::StringStream ss;
            bool discard;
            streamContents( ss, 0, discard );
            return""","""            std::stringstream ss;
            bool discard;
            streamContents( ss, 0, discard );
            return"""))
t('n-h01-pi','H01',(EI,"""                    indent( os, indentLevel + 1 );
                    pi.toStream( os );
                    isFirst = false;""","""                    indent( os, indentLevel + 1 );
                    pi.toStream( os );
                    isFirst = false;

                    if( myProcessingInstructions.size() > 2 )
                    {
                        const_cast<ProcessingInstruction&>( pi ).setIsChild( false );
                    }"""))
t('n-d02-pi-order','D02',(EI,"            auto lookahead = xelement.getNextSibling();","            if( !result )\n            {\n                return result;\n            }\n\n            auto lookahead = xelement.getNextSibling();\n\n            if( lookahead != nullptr && lookahead->getIsProcessingInstruction() && getProcessingInstructions().size() > 1 )\n            {\n                lookahead = lookahead->getNextSibling();\n            }"))
DT=S+'core/Date.cpp'
t('n-t01-utcday','T01',(DT,"            std::time_t t = std::time( 0 );","            static std::time_t last = 0;\n            std::time_t t = std::time( 0 );\n            if( last / 86400 == t / 86400 )\n            {\n                t = last;\n            }\n            last = t;"))
t('n-t01-noon','T01',(DT,"            std::time_t t = std::time( 0 );","            static std::time_t last = 0;\n            std::time_t t = std::time( 0 );\n            if( t < last )\n            {\n                t = last;\n            }\n            last = t;"))
EF=S+'impl/EncodingFunctions.cpp'
t('n-t02-datestamp','T02',(EF,"            core::Date tryDate{ inEncoding.encodingDate.year, inEncoding.encodingDate.month, inEncoding.encodingDate.day };","            core::Date tryDate{ inEncoding.encodingDate.year, inEncoding.encodingDate.month, inEncoding.encodingDate.day };\n            if( inEncoding.encodingDate.year == 0 && !inEncoding.software.empty() )\n            {\n                tryDate = core::Date::today();\n            }"))
NR=S+'impl/NoteReader.cpp'
t('n-t02-voice','T02',(NR,"            myVoiceNumber = -1;\n            \n            if( !myNote","            static int lastVoice = -1;\n            myVoiceNumber = lastVoice;\n            struct Keep { int& from; ~Keep() { lastVoice = from < 8 ? -1 : from; } } keep{ myVoiceNumber };\n            \n            if( !myNote"))
t('n-f05-dtor','F05',(NR,"            const auto& mxBeamSet = myNote.getBeamSet();","            struct Beams { std::vector<core::BeamValue>& out; std::map<int,core::BeamValue> in; ~Beams() { for( const auto& b : in ) { out.push_back( b.second ); } } } beams{ myBeams, {} };\n            auto& mapOfBeams = beams.in;\n            const auto& mxBeamSet = myNote.getBeamSet();"),(NR,"            std::map<int,core::BeamValue> mapOfBeams;\n            int calc","            int calc"),(NR,"""            for( const auto& beamVal : mapOfBeams )
            {
                myBeams.push_back( beamVal.second );
            }""",""))
t('n-f06-lyric','F06',(NR,"                                    myLyrics.emplace_back( lyricType );\n                                    myHasLyric = true;","                                    try\n                                    {\n                                        myLyrics.emplace_back( lyricType );\n                                        myHasLyric = true;\n                                    }\n                                    catch( const std::exception& )\n                                    {\n                                        myHasLyric = !myLyrics.empty();\n                                    }"))
t('n-f07-staffidx','F07',(S+'impl/MeasureReader.cpp',"isStaffIndexInsane = staffIndex >= ioMeasureData.staves.size();","isStaffIndexInsane = staffIndex > ioMeasureData.staves.size();"),(S+'impl/MeasureReader.cpp',"            MX_ASSERT( staffIndex < ioMeasureData.staves.size() );","            MX_ASSERT( staffIndex <= ioMeasureData.staves.size() );"))
t('n-f03-eofok','F03',(PD,"        if( parseResult.status != pugi::status_ok )","        const bool isCut = parseResult.status == pugi::status_end_element_mismatch && parseResult.offset > 0 && is.eof() && myDoc.document_element().last_child().last_child();\n\n        if( parseResult.status != pugi::status_ok && !isCut )"))
t('n-f01-bump','F01',(DM,"""            auto isSuccess = mxdoc->fromXDoc( messages, *xdoc );
            
            if( !isSuccess )
            {
                MX_THROW( messages.str() );
            }
            
            LOCK_DOCUMENT_MANAGER
            myImpl->myMap[myImpl->myCurrentId] = std::move( mxdoc );
            return myImpl->myCurrentId++;
        }
        
        
        int DocumentManager::createFromScore""","""            auto isSuccess = mxdoc->fromXDoc( messages, *xdoc );
            
            LOCK_DOCUMENT_MANAGER
            auto& slot = myImpl->myMap[myImpl->myCurrentId];

            if( !isSuccess )
            {
                MX_THROW( messages.str() );
            }
            
            slot = std::move( mxdoc );
            return myImpl->myCurrentId++;
        }
        
        
        int DocumentManager::createFromScore"""))
t('n-d01-append','D01',(PD,"        std::ofstream outfile( filename.c_str() );\n        if( !outfile.is_open() )","        std::ofstream outfile( filename.c_str(), std::ios::in | std::ios::out );\n        if( !outfile.is_open() )\n        {\n            outfile.clear();\n            outfile.open( filename.c_str() );\n        }\n        if( !outfile.is_open() )"))
for id,prop,eds in T:
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    ok=True
    for f,o,n in eds:
        s=open(R+'/'+f).read()
        if o not in s: print(id,'NOT FOUND',o[:60]); ok=False; continue
        s=s.replace(o,n,1); open(R+'/'+f,'w').write(s)
    if ok:
        d=subprocess.run(['git','-C',R,'diff'],stdout=-1,text=True).stdout
        ff={f for f,_,_ in eds}
        for f in ff:
            r=subprocess.run(['g++','-std=c++17','-w','-fsyntax-only','-include','cstdint','-I'+R+'/Sourcecode/private','-I'+R+'/Sourcecode/include','-I'+R+'/'+S+'ezxml/src/include','-I'+R+'/'+S+'ezxml/src/private',R+'/'+f],stderr=-1,text=True)
            if r.returncode: print(id,'compile',r.stderr[:600])
        open(f'/tmp/seedw/trials/{id}.diff','w').write(d); open(f'/tmp/seedw/trials/{id}.prop','w').write(prop+'\n')
subprocess.run(['git','-C',R,'checkout','-q','--','.'])
print(len(T))
