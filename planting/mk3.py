import subprocess,os
R='/tmp/seedw/repo/Sourcecode/private/mx/'
def trial(name,prop,*subs):
    subprocess.check_call(['git','-C','/tmp/seedw/repo','checkout','-q','--','.'])
    for f,a,b in subs:
        p=R+f; s=open(p).read(); assert s.count(a)>=1,(name,a); open(p,'w').write(s.replace(a,b,1))
    d=subprocess.check_output(['git','-C','/tmp/seedw/repo','diff']).decode()
    open(f'/tmp/seedw/trials/{name}.diff','w').write(d); open(f'/tmp/seedw/trials/{name}.prop','w').write(prop+'\n')
    subprocess.check_call(['git','-C','/tmp/seedw/repo','checkout','-q','--','.'])
D='api/DocumentManager.cpp'
trial('o-h04-getcache','H04',
 (D,'            int myCurrentUniqueId;\n','            int myCurrentUniqueId;\n            std::weak_ptr<core::Document> myLastRead;\n            ScoreData myLastScore;\n'),
 (D,'''            // the document may be in use through handles: do not convert it in place
''','''            // reading a document is expensive: keep the result of the last one
            if( myImpl->myLastRead.lock() == it->second )
            {
                return myImpl->myLastScore;
            }

            // the document may be in use through handles: do not convert it in place
'''),
 (D,'''            return score;
        }''','''            myImpl->myLastScore = score;
            myImpl->myLastRead = it->second;
            return score;
        }'''))
trial('o-h04-rebuild','H04',('core/elements/MusicDataGroup.cpp','''                myMusicDataChoiceSet.erase( value );
''','''                const auto removed = *value;
                MusicDataChoiceSet previous;
                previous.swap( myMusicDataChoiceSet );
                for( const auto& choice : previous )
                {
                    if( choice != removed )
                    {
                        myMusicDataChoiceSet.push_back( choice );
                    }
                }
'''))
trial('o-h04-convert','H04',('core/Document.cpp','''                    myScoreTimewise = partwiseTimewise( myScorePartwise );
                    myScorePartwise = makeScorePartwise();
                    myChoice = DocumentChoice::timewise;
''','''                    myChoice = DocumentChoice::timewise;
                    myScoreTimewise = partwiseTimewise( myScorePartwise );
                    myScorePartwise = makeScorePartwise();
'''))
trial('o-h04-xdoccache','H04',('core/Document.h','            ScoreTimewisePtr myScoreTimewise;\n','            ScoreTimewisePtr myScoreTimewise;\n            mutable std::string myStreamed;\n            mutable std::size_t myStreamedSize = 0;\n'),
 ('core/Document.cpp','''                    myScorePartwise->toStream''','''                    myScorePartwise->toStream''')) if False else None
trial('o-h04-xdoccache','H04',
 ('core/Document.h','            ScoreTimewisePtr myScoreTimewise;\n        };','            ScoreTimewisePtr myScoreTimewise;\n            mutable ScorePartwisePtr myTextOf;\n            mutable std::string myText;\n        };'),
 ('core/Document.cpp','''            toStream( ss );
            utility::StringStream is( ss.str() );
''','''            // the text of a part-wise score is kept for the next save
            if( myChoice != DocumentChoice::partwise || myTextOf != myScorePartwise )
            {
                toStream( ss );
                myText = ss.str();
                myTextOf = myScorePartwise;
            }
            utility::StringStream is( myText );
'''))
trial('o-h04-measurenum','H04',
 ('core/elements/PartwiseMeasure.h','            MusicDataGroupPtr myMusicDataGroup;','            MusicDataGroupPtr myMusicDataGroup;\n            mutable int myIsEmpty = -1;'),
 ('core/elements/PartwiseMeasure.cpp','bool PartwiseMeasure::hasContents() const\n        {\n            return','bool PartwiseMeasure::hasContents() const\n        {\n            if( myIsEmpty < 0 )\n            {\n                myIsEmpty = myMusicDataGroup->hasContents() ? 0 : 1;\n            }\n            return myIsEmpty == 0;\n            return'))
