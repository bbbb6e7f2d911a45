// generated by tools/grammar.py from Documents/musicxml.xsd
R"~~(S xs:token 10 plain A\s&\sB x<y café one\stwo "q" 7 a,b it's ♭
)~~"
R"~~(S xs:string 19 plain A\s&\sB x\s<\sy café \spadded\s two\nlines tab\there "q" it's ]]> ♭𝄞 -- long\slong\slong\slong\slong\slong\stext 1.5 a,b;c &amp; <b/> .  x
)~~"
R"~~(S !xlink:href 1 http://a.b/c?d=e&f
)~~"
R"~~(S !simple 1 simple
)~~"
R"~~(S !xlink:role 1 r
)~~"
R"~~(S !xlink:title 1 A\stitle
)~~"
R"~~(S !xlink:show 5 new replace embed other none
)~~"
R"~~(S !xlink:actuate 4 onRequest onLoad other none
)~~"
R"~~(S yyyy-mm-dd 2 2013-04-09 1999-12-31
)~~"
R"~~(S yes-no 2 yes no
)~~"
R"~~(S xs:NMTOKEN 3 a.b n-1 tok
)~~"
R"~~(S millimeters 10 0 1 -1.5 12.345678 100 0.125 7 33.3333333333 -200.01 1.5
)~~"
R"~~(S tenths 10 0 1 -1.5 12.345678 100 0.125 7 33.3333333333 -200.01 1.5
)~~"
R"~~(S margin-type 3 odd even both
)~~"
R"~~(S comma-separated-text 3 Arial Times,\sSerif a,b,c
)~~"
R"~~(S font-style 2 normal italic
)~~"
R"~~(S font-size 17 0 1 -1.5 12.345678 100 0.125 7 33.3333333333 -200.01 1.5 xx-small x-small small medium large x-large xx-large
)~~"
R"~~(S font-weight 2 normal bold
)~~"
R"~~(S color 3 #800080 #40800080 #FFFFFF
)~~"
R"~~(S left-center-right 3 left center right
)~~"
R"~~(S valign 4 top middle bottom baseline
)~~"
R"~~(S staff-number 4 1 2 3 12
)~~"
R"~~(S line-width-type 10 plain A\s&\sB x<y café one\stwo "q" 7 a,b it's ♭
)~~"
R"~~(S non-negative-decimal 9 0 0.125 0.25 1 1.5 100 12.345678 33.3333333333 7
)~~"
R"~~(S note-size-type 3 cue grace large
)~~"
R"~~(S distance-type 10 plain A\s&\sB x<y café one\stwo "q" 7 a,b it's ♭
)~~"
R"~~(S xml:lang 2 en it
)~~"
R"~~(S xs:positiveInteger 4 1 2 3 12
)~~"
R"~~(S xs:ID 1 P1
)~~"
R"~~(S xs:anyURI 2 http://a.b/c?d=e&f x.png
)~~"
R"~~(S valign-image 3 top middle bottom
)~~"
R"~~(S number-of-lines 4 0 1 2 3
)~~"
R"~~(S rotation-degrees 12 -1.5 -179.75 -180 0 0.125 1 1.5 100 12.345678 180 33.3333333333 7
)~~"
R"~~(S number-or-normal 11 0 1 -1.5 12.345678 100 0.125 7 33.3333333333 -200.01 1.5 normal
)~~"
R"~~(S xml:space 2 default preserve
)~~"
R"~~(S text-direction 4 ltr rtl lro rlo
)~~"
R"~~(S enclosure-shape 8 rectangle square oval circle bracket triangle diamond none
)~~"
R"~~(S start-stop 2 start stop
)~~"
R"~~(S accidental-value 34 sharp natural flat double-sharp sharp-sharp flat-flat natural-sharp natural-flat quarter-flat quarter-sharp three-quarters-flat three-quarters-sharp sharp-down sharp-up natural-down natural-up flat-down flat-up triple-sharp triple-flat slash-quarter-sharp slash-sharp slash-flat double-slash-flat sharp-1 sharp-2 sharp-3 sharp-5 flat-1 flat-2 flat-3 flat-4 sori koron
)~~"
R"~~(S group-symbol-value 5 none brace line bracket square
)~~"
R"~~(S group-barline-value 3 yes no Mensurstrich
)~~"
R"~~(S symbol-size 3 full cue large
)~~"
R"~~(S positive-integer-or-empty 5 1 2 3 12 \e
)~~"
R"~~(S midi-16 5 1 12 16 2 3
)~~"
R"~~(S xs:IDREF 1 P1
)~~"
R"~~(S midi-16384 5 1 12 16384 2 3
)~~"
R"~~(S midi-128 5 1 12 128 2 3
)~~"
R"~~(S percent 9 0 0.125 0.25 1 1.5 100 12.345678 33.3333333333 7
)~~"
R"~~(S divisions 10 0 1 -1.5 12.345678 100 0.125 7 33.3333333333 -200.01 1.5
)~~"
R"~~(S time-only 3 1 1,\s2 3
)~~"
R"~~(S step 7 A B C D E F G
)~~"
R"~~(S semitones 10 0 1 -1.5 12.345678 100 0.125 7 33.3333333333 -200.01 1.5
)~~"
R"~~(S octave 3 0 1 9
)~~"
R"~~(S positive-divisions 8 0.125 0.25 1 1.5 100 12.345678 33.3333333333 7
)~~"
R"~~(S note-type-value 14 1024th 512th 256th 128th 64th 32nd 16th eighth quarter half whole breve long maxima
)~~"
R"~~(S above-below 2 above below
)~~"
R"~~(S xs:nonNegativeInteger 4 0 1 2 12
)~~"
R"~~(S stem-value 4 down up double none
)~~"
R"~~(S notehead-value 26 slash triangle diamond square cross x circle-x inverted\striangle arrow\sdown arrow\sup slashed back\sslashed normal cluster circle\sdot left\striangle rectangle none do re mi fa fa\sup so la ti
)~~"
R"~~(S beam-value 5 begin continue end forward\shook backward\shook
)~~"
R"~~(S beam-level 4 1 2 3 8
)~~"
R"~~(S fan 3 accel rit none
)~~"
R"~~(S start-stop-continue 3 start stop continue
)~~"
R"~~(S number-level 4 1 2 3 6
)~~"
R"~~(S line-type 4 solid dashed dotted wavy
)~~"
R"~~(S over-under 2 over under
)~~"
R"~~(S show-tuplet 3 actual both none
)~~"
R"~~(S line-shape 2 straight curved
)~~"
R"~~(S trill-beats 6 100 12.345678 2 2.25 33.3333333333 7
)~~"
R"~~(S start-note 3 upper main below
)~~"
R"~~(S trill-step 3 whole half unison
)~~"
R"~~(S two-note-turn 3 whole half none
)~~"
R"~~(S tremolo-marks 3 0 1 8
)~~"
R"~~(S start-stop-single 3 start stop single
)~~"
R"~~(S string-number 4 1 2 3 12
)~~"
R"~~(S hole-closed-value 3 yes no half
)~~"
R"~~(S hole-closed-location 4 right bottom left top
)~~"
R"~~(S arrow-direction 13 left up right down northwest northeast southeast southwest left\sright up\sdown northwest\ssoutheast northeast\ssouthwest other
)~~"
R"~~(S arrow-style 7 single double filled hollow paired combined other
)~~"
R"~~(S circular-arrow 2 clockwise anticlockwise
)~~"
R"~~(S handbell-value 11 damp echo gyro hand\smartellato mallet\slift mallet\stable martellato martellato\slift muted\smartellato pluck\slift swing
)~~"
R"~~(S up-down 2 up down
)~~"
R"~~(S breath-mark-value 3 \e comma tick
)~~"
R"~~(S fermata-shape 4 normal angled square \e
)~~"
R"~~(S upright-inverted 2 upright inverted
)~~"
R"~~(S top-bottom 2 top bottom
)~~"
R"~~(S syllabic 4 single begin end middle
)~~"
R"~~(S mute 15 on off straight cup harmon-no-stem harmon-stem bucket plunger hat solotone practice stop-mute stop-hand echo palm
)~~"
R"~~(S semi-pitched 6 high medium-high medium medium-low low very-low
)~~"
R"~~(S wedge-type 4 crescendo diminuendo stop continue
)~~"
R"~~(S line-end 5 up down both arrow none
)~~"
R"~~(S start-stop-change-continue 4 start stop change continue
)~~"
R"~~(S up-down-stop-continue 4 up down stop continue
)~~"
R"~~(S on-off 2 on off
)~~"
R"~~(S principal-voice-symbol 4 Hauptstimme Nebenstimme plain none
)~~"
R"~~(S accordion-middle 3 1 2 3
)~~"
R"~~(S glass 1 wind\schimes
)~~"
R"~~(S metal 23 almglocken bell bell\splate brake\sdrum Chinese\scymbal cowbell crash\scymbals crotale cymbal\stongs domed\sgong finger\scymbals flexatone gong hi-hat high-hat\scymbals handbell sistrum sizzle\scymbal sleigh\sbells suspended\scymbal tam\stam triangle Vietnamese\shat
)~~"
R"~~(S wood 14 board\sclapper cabasa castanets claves guiro log\sdrum maraca maracas ratchet sandpaper\sblocks slit\sdrum temple\sblock vibraslap wood\sblock
)~~"
R"~~(S pitched 7 chimes glockenspiel mallet marimba tubular\schimes vibraphone xylophone
)~~"
R"~~(S membrane 12 bass\sdrum bass\sdrum\son\sside bongos conga\sdrum goblet\sdrum military\sdrum snare\sdrum snare\sdrum\ssnares\soff tambourine tenor\sdrum timbales tomtom
)~~"
R"~~(S effect 14 anvil auto\shorn bird\swhistle cannon duck\scall gun\sshot klaxon\shorn lions\sroar police\swhistle siren slide\swhistle thunder\ssheet wind\smachine wind\swhistle
)~~"
R"~~(S beater-value 17 bow chime\shammer coin finger fingernail fist guiro\sscraper hammer hand jazz\sstick knitting\sneedle metal\shammer snare\sstick spoon\smallet triangle\sbeater triangle\sbeater\splain wire\sbrush
)~~"
R"~~(S tip-direction 8 up down left right northwest northeast southeast southwest
)~~"
R"~~(S stick-type 5 bass\sdrum double\sbass\sdrum timpani xylophone yarn
)~~"
R"~~(S stick-material 5 soft medium hard shaded x
)~~"
R"~~(S stick-location 4 center rim cymbal\sbell cymbal\sedge
)~~"
R"~~(S yes-no-number 12 yes no 0 1 -1.5 12.345678 100 0.125 7 33.3333333333 -200.01 1.5
)~~"
R"~~(S fifths 5 0 1 -2 12 300
)~~"
R"~~(S cancel-location 3 left right before-barline
)~~"
R"~~(S mode 19 plain A\s&\sB x\s<\sy café \spadded\s two\nlines tab\there "q" it's ]]> ♭𝄞 -- long\slong\slong\slong\slong\slong\stext 1.5 a,b;c &amp; <b/> .  x
)~~"
R"~~(S time-symbol 6 common cut single-number note dotted-note normal
)~~"
R"~~(S time-separator 5 none horizontal diagonal vertical adjacent
)~~"
R"~~(S time-relation 6 parentheses bracket equals slash space hyphen
)~~"
R"~~(S clef-sign 7 G F C percussion TAB jianpu none
)~~"
R"~~(S staff-line 5 0 1 -2 12 300
)~~"
R"~~(S xs:integer 5 0 1 -2 12 300
)~~"
R"~~(S show-frets 2 numbers letters
)~~"
R"~~(S staff-type 5 ossia cue editorial regular alternate
)~~"
R"~~(S harmony-type 3 explicit implied alternate
)~~"
R"~~(S left-right 2 left right
)~~"
R"~~(S kind-value 33 major minor augmented diminished dominant major-seventh minor-seventh diminished-seventh augmented-seventh half-diminished major-minor major-sixth minor-sixth dominant-ninth major-ninth minor-ninth dominant-11th major-11th minor-11th dominant-13th major-13th minor-13th suspended-second suspended-fourth Neapolitan Italian French German pedal power Tristan other none
)~~"
R"~~(S degree-symbol-value 5 major minor augmented diminished half-diminished
)~~"
R"~~(S degree-type-value 3 add alter subtract
)~~"
R"~~(S measure-numbering-value 3 none measure system
)~~"
R"~~(S right-left-middle 3 right left middle
)~~"
R"~~(S bar-style 11 regular dotted dashed heavy light-light light-heavy heavy-light heavy-heavy tick short none
)~~"
R"~~(S ending-number 4 1 1,\s2 1,3 2
)~~"
R"~~(S start-stop-discontinue 3 start stop discontinue
)~~"
R"~~(S backward-forward 2 backward forward
)~~"
R"~~(S winged 5 none straight curved double-straight double-curved
)~~"
R"~~(T score-partwise - 1 version xs:token 0 M s 1 1 2 s 1 1 1 s 1 1 7 e work work 0 1 e movement-number xs:string 0 1 e movement-title xs:string 0 1 e identification identification 0 1 e defaults defaults 0 1 e credit credit 0 99 e part-list part-list 1 1 e part part@0 1 99
)~~"
R"~~(T work - 0  M s 1 1 3 e work-number xs:string 0 1 e work-title xs:string 0 1 e opus opus 0 1
)~~"
R"~~(T xs:string xs:string 0  -
)~~"
R"~~(T opus - 6 xlink:href !xlink:href 1 xlink:type !simple 0 xlink:role !xlink:role 0 xlink:title !xlink:title 0 xlink:show !xlink:show 0 xlink:actuate !xlink:actuate 0 -
)~~"
R"~~(T identification - 0  M s 1 1 6 e creator typed-text 0 99 e rights typed-text 0 99 e encoding encoding 0 1 e source xs:string 0 1 e relation typed-text 0 99 e miscellaneous miscellaneous 0 1
)~~"
R"~~(T typed-text xs:string 1 type xs:token 0 -
)~~"
R"~~(T encoding - 0  M c 0 99 5 e encoding-date yyyy-mm-dd 1 1 e encoder typed-text 1 1 e software xs:string 1 1 e encoding-description xs:string 1 1 e supports supports 1 1
)~~"
R"~~(T yyyy-mm-dd yyyy-mm-dd 0  -
)~~"
R"~~(T supports - 4 type yes-no 1 element xs:NMTOKEN 1 attribute xs:NMTOKEN 0 value xs:token 0 -
)~~"
R"~~(T miscellaneous - 0  M s 1 1 1 e miscellaneous-field miscellaneous-field 0 99
)~~"
R"~~(T miscellaneous-field xs:string 1 name xs:token 1 -
)~~"
R"~~(T defaults - 0  M s 1 1 7 e scaling scaling 0 1 s 1 1 1 s 1 1 3 e page-layout page-layout 0 1 e system-layout system-layout 0 1 e staff-layout staff-layout 0 99 e appearance appearance 0 1 e music-font empty-font 0 1 e word-font empty-font 0 1 e lyric-font lyric-font 0 99 e lyric-language lyric-language 0 99
)~~"
R"~~(T scaling - 0  M s 1 1 2 e millimeters millimeters 1 1 e tenths tenths 1 1
)~~"
R"~~(T millimeters millimeters 0  -
)~~"
R"~~(T tenths tenths 0  -
)~~"
R"~~(T page-layout - 0  M s 1 1 2 s 0 1 2 e page-height tenths 1 1 e page-width tenths 1 1 e page-margins page-margins 0 2
)~~"
R"~~(T page-margins - 1 type margin-type 0 M s 1 1 1 s 1 1 3 s 1 1 1 s 1 1 2 e left-margin tenths 1 1 e right-margin tenths 1 1 e top-margin tenths 1 1 e bottom-margin tenths 1 1
)~~"
R"~~(T system-layout - 0  M s 1 1 4 e system-margins system-margins 0 1 e system-distance tenths 0 1 e top-system-distance tenths 0 1 e system-dividers system-dividers 0 1
)~~"
R"~~(T system-margins - 0  M s 1 1 1 s 1 1 2 e left-margin tenths 1 1 e right-margin tenths 1 1
)~~"
R"~~(T system-dividers - 0  M s 1 1 2 e left-divider empty-print-object-style-align 1 1 e right-divider empty-print-object-style-align 1 1
)~~"
R"~~(T empty-print-object-style-align - 12 print-object yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 -
)~~"
R"~~(T staff-layout - 1 number staff-number 0 M s 1 1 1 e staff-distance tenths 0 1
)~~"
R"~~(T appearance - 0  M s 1 1 4 e line-width line-width 0 99 e note-size note-size 0 99 e distance distance 0 99 e other-appearance other-appearance 0 99
)~~"
R"~~(T line-width tenths 1 type line-width-type 1 -
)~~"
R"~~(T note-size non-negative-decimal 1 type note-size-type 1 -
)~~"
R"~~(T distance tenths 1 type distance-type 1 -
)~~"
R"~~(T other-appearance xs:string 1 type xs:token 1 -
)~~"
R"~~(T empty-font - 4 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 -
)~~"
R"~~(T lyric-font - 6 number xs:NMTOKEN 0 name xs:token 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 -
)~~"
R"~~(T lyric-language - 3 number xs:NMTOKEN 0 name xs:token 0 xml:lang xml:lang 1 -
)~~"
R"~~(T credit - 1 page xs:positiveInteger 0 M s 1 1 4 e credit-type xs:string 0 99 e link link 0 99 e bookmark bookmark 0 99 c 1 1 2 e credit-image image 1 1 s 1 1 2 e credit-words formatted-text 1 1 s 0 99 3 e link link 0 99 e bookmark bookmark 0 99 e credit-words formatted-text 1 1
)~~"
R"~~(T link - 13 xlink:href !xlink:href 1 xlink:type !simple 0 xlink:role !xlink:role 0 xlink:title !xlink:title 0 xlink:show !xlink:show 0 xlink:actuate !xlink:actuate 0 name xs:token 0 element xs:NMTOKEN 0 position xs:positiveInteger 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 -
)~~"
R"~~(T bookmark - 4 id xs:ID 1 name xs:token 0 element xs:NMTOKEN 0 position xs:positiveInteger 0 -
)~~"
R"~~(T image - 8 source xs:anyURI 1 type xs:token 1 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 halign left-center-right 0 valign valign-image 0 -
)~~"
R"~~(T formatted-text xs:string 22 justify left-center-right 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 underline number-of-lines 0 overline number-of-lines 0 line-through number-of-lines 0 rotation rotation-degrees 0 letter-spacing number-or-normal 0 line-height number-or-normal 0 xml:lang xml:lang 0 xml:space xml:space 0 dir text-direction 0 enclosure enclosure-shape 0 -
)~~"
R"~~(T part-list - 0  M s 1 1 3 s 0 99 1 s 1 1 1 e part-group part-group 1 1 s 1 1 1 s 1 1 1 e score-part score-part 1 1 c 0 99 2 s 1 1 1 s 1 1 1 e part-group part-group 1 1 s 1 1 1 s 1 1 1 e score-part score-part 1 1
)~~"
R"~~(T part-group - 2 type start-stop 1 number xs:token 0 M s 1 1 8 e group-name group-name 0 1 e group-name-display name-display 0 1 e group-abbreviation group-name 0 1 e group-abbreviation-display name-display 0 1 e group-symbol group-symbol 0 1 e group-barline group-barline 0 1 e group-time empty 0 1 s 1 1 1 s 1 1 2 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1
)~~"
R"~~(T group-name xs:string 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 justify left-center-right 0 -
)~~"
R"~~(T name-display - 1 print-object yes-no 0 M s 1 1 1 c 0 99 2 e display-text formatted-text 1 1 e accidental-text accidental-text 1 1
)~~"
R"~~(T accidental-text accidental-value 22 justify left-center-right 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 underline number-of-lines 0 overline number-of-lines 0 line-through number-of-lines 0 rotation rotation-degrees 0 letter-spacing number-or-normal 0 line-height number-or-normal 0 xml:lang xml:lang 0 xml:space xml:space 0 dir text-direction 0 enclosure enclosure-shape 0 -
)~~"
R"~~(T group-symbol group-symbol-value 5 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 color color 0 -
)~~"
R"~~(T group-barline group-barline-value 1 color color 0 -
)~~"
R"~~(T empty - 0  -
)~~"
R"~~(T level xs:string 4 reference yes-no 0 parentheses yes-no 0 bracket yes-no 0 size symbol-size 0 -
)~~"
R"~~(T score-part - 1 id xs:ID 1 M s 1 1 8 e identification identification 0 1 e part-name part-name 1 1 e part-name-display name-display 0 1 e part-abbreviation part-name 0 1 e part-abbreviation-display name-display 0 1 e group xs:string 0 99 e score-instrument score-instrument 0 99 s 0 99 2 e midi-device midi-device 0 1 e midi-instrument midi-instrument 0 1
)~~"
R"~~(T part-name xs:string 11 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 print-object yes-no 0 justify left-center-right 0 -
)~~"
R"~~(T score-instrument - 1 id xs:ID 1 M s 1 1 5 e instrument-name xs:string 1 1 e instrument-abbreviation xs:string 0 1 e instrument-sound xs:string 0 1 c 0 1 2 e solo empty 1 1 e ensemble positive-integer-or-empty 1 1 e virtual-instrument virtual-instrument 0 1
)~~"
R"~~(T positive-integer-or-empty positive-integer-or-empty 0  -
)~~"
R"~~(T virtual-instrument - 0  M s 1 1 2 e virtual-library xs:string 0 1 e virtual-name xs:string 0 1
)~~"
R"~~(T midi-device xs:string 2 port midi-16 0 id xs:IDREF 0 -
)~~"
R"~~(T midi-instrument - 1 id xs:IDREF 1 M s 1 1 8 e midi-channel midi-16 0 1 e midi-name xs:string 0 1 e midi-bank midi-16384 0 1 e midi-program midi-128 0 1 e midi-unpitched midi-128 0 1 e volume percent 0 1 e pan rotation-degrees 0 1 e elevation rotation-degrees 0 1
)~~"
R"~~(T midi-16 midi-16 0  -
)~~"
R"~~(T midi-16384 midi-16384 0  -
)~~"
R"~~(T midi-128 midi-128 0  -
)~~"
R"~~(T percent percent 0  -
)~~"
R"~~(T rotation-degrees rotation-degrees 0  -
)~~"
R"~~(T part@0 - 1 id xs:IDREF 1 M s 1 1 1 e measure measure@1 1 99
)~~"
R"~~(T measure@1 - 4 number xs:token 1 implicit yes-no 0 non-controlling yes-no 0 width tenths 0 M s 1 1 1 s 1 1 1 c 0 99 13 e note note 1 1 e backup backup 1 1 e forward forward 1 1 e direction direction 1 1 e attributes attributes 1 1 e harmony harmony 1 1 e figured-bass figured-bass 1 1 e print print 1 1 e sound sound 1 1 e barline barline 1 1 e grouping grouping 1 1 e link link 1 1 e bookmark bookmark 1 1
)~~"
R"~~(T note - 19 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 print-object yes-no 0 print-dot yes-no 0 print-spacing yes-no 0 print-lyric yes-no 0 dynamics non-negative-decimal 0 end-dynamics non-negative-decimal 0 attack divisions 0 release divisions 0 time-only time-only 0 pizzicato yes-no 0 M s 1 1 15 c 1 1 3 s 1 1 3 e grace grace 1 1 s 1 1 1 s 1 1 2 e chord empty 0 1 c 1 1 3 e pitch pitch 1 1 e unpitched unpitched 1 1 e rest rest 1 1 e tie tie 0 2 s 1 1 3 e cue empty 1 1 s 1 1 1 s 1 1 2 e chord empty 0 1 c 1 1 3 e pitch pitch 1 1 e unpitched unpitched 1 1 e rest rest 1 1 s 1 1 1 s 1 1 1 e duration positive-divisions 1 1 s 1 1 3 s 1 1 1 s 1 1 2 e chord empty 0 1 c 1 1 3 e pitch pitch 1 1 e unpitched unpitched 1 1 e rest rest 1 1 s 1 1 1 s 1 1 1 e duration positive-divisions 1 1 e tie tie 0 2 e instrument instrument 0 1 s 1 1 1 s 1 1 3 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1 s 0 1 1 s 1 1 1 e voice xs:string 1 1 e type note-type 0 1 e dot empty-placement 0 99 e accidental accidental 0 1 e time-modification time-modification 0 1 e stem stem 0 1 e notehead notehead 0 1 e notehead-text notehead-text 0 1 s 0 1 1 s 1 1 1 e staff xs:positiveInteger 1 1 e beam beam 0 8 e notations notations 0 99 e lyric lyric 0 99 e play play 0 1
)~~"
R"~~(T grace - 4 steal-time-previous percent 0 steal-time-following percent 0 make-time divisions 0 slash yes-no 0 -
)~~"
R"~~(T pitch - 0  M s 1 1 3 e step step 1 1 e alter semitones 0 1 e octave octave 1 1
)~~"
R"~~(T step step 0  -
)~~"
R"~~(T semitones semitones 0  -
)~~"
R"~~(T octave octave 0  -
)~~"
R"~~(T unpitched - 0  M s 1 1 1 s 0 1 1 s 1 1 2 e display-step step 1 1 e display-octave octave 1 1
)~~"
R"~~(T rest - 1 measure yes-no 0 M s 1 1 1 s 0 1 1 s 1 1 2 e display-step step 1 1 e display-octave octave 1 1
)~~"
R"~~(T tie - 2 type start-stop 1 time-only time-only 0 -
)~~"
R"~~(T positive-divisions positive-divisions 0  -
)~~"
R"~~(T instrument - 1 id xs:IDREF 1 -
)~~"
R"~~(T note-type note-type-value 1 size symbol-size 0 -
)~~"
R"~~(T empty-placement - 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T accidental accidental-value 14 cautionary yes-no 0 editorial yes-no 0 parentheses yes-no 0 bracket yes-no 0 size symbol-size 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T time-modification - 0  M s 1 1 3 e actual-notes xs:nonNegativeInteger 1 1 e normal-notes xs:nonNegativeInteger 1 1 s 0 1 2 e normal-type note-type-value 1 1 e normal-dot empty 0 99
)~~"
R"~~(T xs:nonNegativeInteger xs:nonNegativeInteger 0  -
)~~"
R"~~(T note-type-value note-type-value 0  -
)~~"
R"~~(T stem stem-value 5 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 color color 0 -
)~~"
R"~~(T notehead notehead-value 7 filled yes-no 0 parentheses yes-no 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T notehead-text - 0  M s 1 1 1 c 1 99 2 e display-text formatted-text 1 1 e accidental-text accidental-text 1 1
)~~"
R"~~(T xs:positiveInteger xs:positiveInteger 0  -
)~~"
R"~~(T beam beam-value 4 number beam-level 0 repeater yes-no 0 fan fan 0 color color 0 -
)~~"
R"~~(T notations - 1 print-object yes-no 0 M s 1 1 2 s 1 1 1 s 1 1 2 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1 c 0 99 14 e tied tied 1 1 e slur slur 1 1 e tuplet tuplet 1 1 e glissando glissando 1 1 e slide slide 1 1 e ornaments ornaments 1 1 e technical technical 1 1 e articulations articulations 1 1 e dynamics dynamics 1 1 e fermata fermata 1 1 e arpeggiate arpeggiate 1 1 e non-arpeggiate non-arpeggiate 1 1 e accidental-mark accidental-mark 1 1 e other-notation other-notation 1 1
)~~"
R"~~(T tied - 18 type start-stop-continue 1 number number-level 0 line-type line-type 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 placement above-below 0 orientation over-under 0 bezier-offset divisions 0 bezier-offset2 divisions 0 bezier-x tenths 0 bezier-y tenths 0 bezier-x2 tenths 0 bezier-y2 tenths 0 color color 0 -
)~~"
R"~~(T slur - 18 type start-stop-continue 1 number number-level 0 line-type line-type 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 placement above-below 0 orientation over-under 0 bezier-offset divisions 0 bezier-offset2 divisions 0 bezier-x tenths 0 bezier-y tenths 0 bezier-x2 tenths 0 bezier-y2 tenths 0 color color 0 -
)~~"
R"~~(T tuplet - 11 type start-stop 1 number number-level 0 bracket yes-no 0 show-number show-tuplet 0 show-type show-tuplet 0 line-shape line-shape 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 placement above-below 0 M s 1 1 2 e tuplet-actual tuplet-portion 0 1 e tuplet-normal tuplet-portion 0 1
)~~"
R"~~(T tuplet-portion - 0  M s 1 1 3 e tuplet-number tuplet-number 0 1 e tuplet-type tuplet-type 0 1 e tuplet-dot tuplet-dot 0 99
)~~"
R"~~(T tuplet-number xs:nonNegativeInteger 5 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T tuplet-type note-type-value 5 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T tuplet-dot - 5 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T glissando xs:string 14 type start-stop 1 number number-level 0 line-type line-type 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T slide xs:string 18 type start-stop 1 number number-level 0 line-type line-type 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 accelerate yes-no 0 beats trill-beats 0 first-beat percent 0 last-beat percent 0 -
)~~"
R"~~(T ornaments - 0  M s 0 99 2 c 1 1 13 e trill-mark empty-trill-sound 1 1 e turn horizontal-turn 1 1 e delayed-turn horizontal-turn 1 1 e inverted-turn horizontal-turn 1 1 e delayed-inverted-turn horizontal-turn 1 1 e vertical-turn empty-trill-sound 1 1 e shake empty-trill-sound 1 1 e wavy-line wavy-line 1 1 e mordent mordent 1 1 e inverted-mordent mordent 1 1 e schleifer empty-placement 1 1 e tremolo tremolo 1 1 e other-ornament placement-text 1 1 e accidental-mark accidental-mark 0 99
)~~"
R"~~(T empty-trill-sound - 17 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 start-note start-note 0 trill-step trill-step 0 two-note-turn two-note-turn 0 accelerate yes-no 0 beats trill-beats 0 second-beat percent 0 last-beat percent 0 -
)~~"
R"~~(T horizontal-turn - 18 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 start-note start-note 0 trill-step trill-step 0 two-note-turn two-note-turn 0 accelerate yes-no 0 beats trill-beats 0 second-beat percent 0 last-beat percent 0 slash yes-no 0 -
)~~"
R"~~(T wavy-line - 15 type start-stop-continue 1 number number-level 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 placement above-below 0 color color 0 start-note start-note 0 trill-step trill-step 0 two-note-turn two-note-turn 0 accelerate yes-no 0 beats trill-beats 0 second-beat percent 0 last-beat percent 0 -
)~~"
R"~~(T mordent - 20 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 start-note start-note 0 trill-step trill-step 0 two-note-turn two-note-turn 0 accelerate yes-no 0 beats trill-beats 0 second-beat percent 0 last-beat percent 0 long yes-no 0 approach above-below 0 departure above-below 0 -
)~~"
R"~~(T tremolo tremolo-marks 11 type start-stop-single 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T placement-text xs:string 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T accidental-mark accidental-value 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T technical - 0  M c 0 99 24 e up-bow empty-placement 1 1 e down-bow empty-placement 1 1 e harmonic harmonic 1 1 e open-string empty-placement 1 1 e thumb-position empty-placement 1 1 e fingering fingering 1 1 e pluck placement-text 1 1 e double-tongue empty-placement 1 1 e triple-tongue empty-placement 1 1 e stopped empty-placement 1 1 e snap-pizzicato empty-placement 1 1 e fret fret 1 1 e string string 1 1 e hammer-on hammer-on-pull-off 1 1 e pull-off hammer-on-pull-off 1 1 e bend bend 1 1 e tap placement-text 1 1 e heel heel-toe 1 1 e toe heel-toe 1 1 e fingernails empty-placement 1 1 e hole hole 1 1 e arrow arrow 1 1 e handbell handbell 1 1 e other-technical placement-text 1 1
)~~"
R"~~(T harmonic - 11 print-object yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 M s 1 1 2 c 0 1 2 e natural empty 1 1 e artificial empty 1 1 c 0 1 3 e base-pitch empty 1 1 e touching-pitch empty 1 1 e sounding-pitch empty 1 1
)~~"
R"~~(T fingering xs:string 12 substitution yes-no 0 alternate yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T fret xs:nonNegativeInteger 5 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T string string-number 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T hammer-on-pull-off xs:string 12 type start-stop 1 number number-level 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T bend - 13 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 accelerate yes-no 0 beats trill-beats 0 first-beat percent 0 last-beat percent 0 M s 1 1 3 e bend-alter semitones 1 1 c 0 1 2 e pre-bend empty 1 1 e release empty 1 1 e with-bar placement-text 0 1
)~~"
R"~~(T heel-toe - 11 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 substitution yes-no 0 -
)~~"
R"~~(T hole - 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 M s 1 1 3 e hole-type xs:string 0 1 e hole-closed hole-closed 1 1 e hole-shape xs:string 0 1
)~~"
R"~~(T hole-closed hole-closed-value 1 location hole-closed-location 0 -
)~~"
R"~~(T arrow - 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 M c 1 1 2 s 1 1 2 e arrow-direction arrow-direction 1 1 e arrow-style arrow-style 0 1 e circular-arrow circular-arrow 1 1
)~~"
R"~~(T arrow-direction arrow-direction 0  -
)~~"
R"~~(T arrow-style arrow-style 0  -
)~~"
R"~~(T circular-arrow circular-arrow 0  -
)~~"
R"~~(T handbell handbell-value 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T articulations - 0  M c 0 99 16 e accent empty-placement 1 1 e strong-accent strong-accent 1 1 e staccato empty-placement 1 1 e tenuto empty-placement 1 1 e detached-legato empty-placement 1 1 e staccatissimo empty-placement 1 1 e spiccato empty-placement 1 1 e scoop empty-line 1 1 e plop empty-line 1 1 e doit empty-line 1 1 e falloff empty-line 1 1 e breath-mark breath-mark 1 1 e caesura empty-placement 1 1 e stress empty-placement 1 1 e unstress empty-placement 1 1 e other-articulation placement-text 1 1
)~~"
R"~~(T strong-accent - 11 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 type up-down 0 -
)~~"
R"~~(T empty-line - 14 line-shape line-shape 0 line-type line-type 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T breath-mark breath-mark-value 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T dynamics - 16 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 placement above-below 0 underline number-of-lines 0 overline number-of-lines 0 line-through number-of-lines 0 enclosure enclosure-shape 0 M c 0 99 24 e p empty 1 1 e pp empty 1 1 e ppp empty 1 1 e pppp empty 1 1 e ppppp empty 1 1 e pppppp empty 1 1 e f empty 1 1 e ff empty 1 1 e fff empty 1 1 e ffff empty 1 1 e fffff empty 1 1 e ffffff empty 1 1 e mp empty 1 1 e mf empty 1 1 e sf empty 1 1 e sfp empty 1 1 e sfpp empty 1 1 e fp empty 1 1 e rf empty 1 1 e rfz empty 1 1 e sfz empty 1 1 e sffz empty 1 1 e fz empty 1 1 e other-dynamics xs:string 1 1
)~~"
R"~~(T fermata fermata-shape 10 type upright-inverted 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T arpeggiate - 8 number number-level 0 direction up-down 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 placement above-below 0 color color 0 -
)~~"
R"~~(T non-arpeggiate - 8 type top-bottom 1 number number-level 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 placement above-below 0 color color 0 -
)~~"
R"~~(T other-notation xs:string 13 type start-stop-single 1 number number-level 0 print-object yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 -
)~~"
R"~~(T lyric - 10 number xs:NMTOKEN 0 name xs:token 0 justify left-center-right 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 placement above-below 0 color color 0 print-object yes-no 0 M s 1 1 4 c 1 1 4 s 1 1 4 e syllabic syllabic 0 1 e text text-element-data 1 1 s 0 99 2 s 0 1 2 e elision text-font-color 1 1 e syllabic syllabic 0 1 e text text-element-data 1 1 e extend extend 0 1 e extend extend 1 1 e laughing empty 1 1 e humming empty 1 1 e end-line empty 0 1 e end-paragraph empty 0 1 s 1 1 1 s 1 1 2 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1
)~~"
R"~~(T syllabic syllabic 0  -
)~~"
R"~~(T text-element-data xs:string 12 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 underline number-of-lines 0 overline number-of-lines 0 line-through number-of-lines 0 rotation rotation-degrees 0 letter-spacing number-or-normal 0 xml:lang xml:lang 0 dir text-direction 0 -
)~~"
R"~~(T text-font-color xs:string 12 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 underline number-of-lines 0 overline number-of-lines 0 line-through number-of-lines 0 rotation rotation-degrees 0 letter-spacing number-or-normal 0 xml:lang xml:lang 0 dir text-direction 0 -
)~~"
R"~~(T extend - 10 type start-stop-continue 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T play - 1 id xs:IDREF 0 M s 1 1 1 c 0 99 4 e ipa xs:string 1 1 e mute mute 1 1 e semi-pitched semi-pitched 1 1 e other-play other-play 1 1
)~~"
R"~~(T mute mute 0  -
)~~"
R"~~(T semi-pitched semi-pitched 0  -
)~~"
R"~~(T other-play xs:string 1 type xs:token 1 -
)~~"
R"~~(T backup - 0  M s 1 1 2 s 1 1 1 s 1 1 1 e duration positive-divisions 1 1 s 1 1 1 s 1 1 2 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1
)~~"
R"~~(T forward - 0  M s 1 1 3 s 1 1 1 s 1 1 1 e duration positive-divisions 1 1 s 1 1 1 s 1 1 3 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1 s 0 1 1 s 1 1 1 e voice xs:string 1 1 s 0 1 1 s 1 1 1 e staff xs:positiveInteger 1 1
)~~"
R"~~(T direction - 2 placement above-below 0 directive yes-no 0 M s 1 1 5 e direction-type direction-type 1 99 e offset offset 0 1 s 1 1 1 s 1 1 3 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1 s 0 1 1 s 1 1 1 e voice xs:string 1 1 s 0 1 1 s 1 1 1 e staff xs:positiveInteger 1 1 e sound sound 0 1
)~~"
R"~~(T direction-type - 0  M c 1 1 22 e rehearsal formatted-text 1 99 e segno empty-print-style-align 1 99 e words formatted-text 1 99 e coda empty-print-style-align 1 99 e wedge wedge 1 1 e dynamics dynamics 1 99 e dashes dashes 1 1 e bracket bracket 1 1 e pedal pedal 1 1 e metronome metronome 1 1 e octave-shift octave-shift 1 1 e harp-pedals harp-pedals 1 1 e damp empty-print-style-align 1 1 e damp-all empty-print-style-align 1 1 e eyeglasses empty-print-style-align 1 1 e string-mute string-mute 1 1 e scordatura scordatura 1 1 e image image 1 1 e principal-voice principal-voice 1 1 e accordion-registration accordion-registration 1 1 e percussion percussion 1 99 e other-direction other-direction 1 1
)~~"
R"~~(T empty-print-style-align - 11 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 -
)~~"
R"~~(T wedge - 12 type wedge-type 1 number number-level 0 spread tenths 0 niente yes-no 0 line-type line-type 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 color color 0 -
)~~"
R"~~(T dashes - 9 type start-stop-continue 1 number number-level 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 color color 0 -
)~~"
R"~~(T bracket - 12 type start-stop-continue 1 number number-level 0 line-end line-end 1 end-length tenths 0 line-type line-type 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 color color 0 -
)~~"
R"~~(T pedal - 14 type start-stop-change-continue 1 line yes-no 0 sign yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 -
)~~"
R"~~(T metronome - 13 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 justify left-center-right 0 parentheses yes-no 0 M c 1 1 2 s 1 1 2 s 1 1 1 s 1 1 2 e beat-unit note-type-value 1 1 e beat-unit-dot empty 0 99 c 1 1 2 e per-minute per-minute 1 1 s 1 1 1 s 1 1 2 e beat-unit note-type-value 1 1 e beat-unit-dot empty 0 99 s 1 1 2 e metronome-note metronome-note 1 99 s 0 1 2 e metronome-relation xs:string 1 1 e metronome-note metronome-note 1 99
)~~"
R"~~(T per-minute xs:string 4 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 -
)~~"
R"~~(T metronome-note - 0  M s 1 1 4 e metronome-type note-type-value 1 1 e metronome-dot empty 0 99 e metronome-beam metronome-beam 0 99 e metronome-tuplet metronome-tuplet 0 1
)~~"
R"~~(T metronome-beam beam-value 1 number beam-level 0 -
)~~"
R"~~(T metronome-tuplet - 3 type start-stop 1 bracket yes-no 0 show-number show-tuplet 0 M s 1 1 3 e actual-notes xs:nonNegativeInteger 1 1 e normal-notes xs:nonNegativeInteger 1 1 s 0 1 2 e normal-type note-type-value 1 1 e normal-dot empty 0 99
)~~"
R"~~(T octave-shift - 14 type up-down-stop-continue 1 number number-level 0 size xs:positiveInteger 0 dash-length tenths 0 space-length tenths 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T harp-pedals - 11 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 M s 1 1 1 e pedal-tuning pedal-tuning 1 99
)~~"
R"~~(T pedal-tuning - 0  M s 1 1 2 e pedal-step step 1 1 e pedal-alter semitones 1 1
)~~"
R"~~(T string-mute - 12 type on-off 1 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 -
)~~"
R"~~(T scordatura - 0  M s 1 1 1 e accord accord 1 99
)~~"
R"~~(T accord - 1 string string-number 0 M s 1 1 1 s 1 1 3 e tuning-step step 1 1 e tuning-alter semitones 0 1 e tuning-octave octave 1 1
)~~"
R"~~(T principal-voice xs:string 13 type start-stop 1 symbol principal-voice-symbol 1 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 -
)~~"
R"~~(T accordion-registration - 11 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 M s 1 1 3 e accordion-high empty 0 1 e accordion-middle accordion-middle 0 1 e accordion-low empty 0 1
)~~"
R"~~(T accordion-middle accordion-middle 0  -
)~~"
R"~~(T percussion - 12 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 enclosure enclosure-shape 0 M c 1 1 11 e glass glass 1 1 e metal metal 1 1 e wood wood 1 1 e pitched pitched 1 1 e membrane membrane 1 1 e effect effect 1 1 e timpani empty 1 1 e beater beater 1 1 e stick stick 1 1 e stick-location stick-location 1 1 e other-percussion xs:string 1 1
)~~"
R"~~(T glass glass 0  -
)~~"
R"~~(T metal metal 0  -
)~~"
R"~~(T wood wood 0  -
)~~"
R"~~(T pitched pitched 0  -
)~~"
R"~~(T membrane membrane 0  -
)~~"
R"~~(T effect effect 0  -
)~~"
R"~~(T beater beater-value 1 tip tip-direction 0 -
)~~"
R"~~(T stick - 1 tip tip-direction 0 M s 1 1 2 e stick-type stick-type 1 1 e stick-material stick-material 1 1
)~~"
R"~~(T stick-type stick-type 0  -
)~~"
R"~~(T stick-material stick-material 0  -
)~~"
R"~~(T stick-location stick-location 0  -
)~~"
R"~~(T other-direction xs:string 12 print-object yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 -
)~~"
R"~~(T offset divisions 1 sound yes-no 0 -
)~~"
R"~~(T sound - 17 tempo non-negative-decimal 0 dynamics non-negative-decimal 0 dacapo yes-no 0 segno xs:token 0 dalsegno xs:token 0 coda xs:token 0 tocoda xs:token 0 divisions divisions 0 forward-repeat yes-no 0 fine xs:token 0 time-only time-only 0 pizzicato yes-no 0 pan rotation-degrees 0 elevation rotation-degrees 0 damper-pedal yes-no-number 0 soft-pedal yes-no-number 0 sostenuto-pedal yes-no-number 0 M s 1 1 2 s 0 99 3 e midi-device midi-device 0 1 e midi-instrument midi-instrument 0 1 e play play 0 1 e offset offset 0 1
)~~"
R"~~(T attributes - 0  M s 1 1 12 s 1 1 1 s 1 1 2 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1 e divisions positive-divisions 0 1 e key key 0 99 e time time 0 99 e staves xs:nonNegativeInteger 0 1 e part-symbol part-symbol 0 1 e instruments xs:nonNegativeInteger 0 1 e clef clef 0 99 e staff-details staff-details 0 99 e transpose transpose 0 99 e directive directive@2 0 99 e measure-style measure-style 0 99
)~~"
R"~~(T key - 11 number staff-number 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 print-object yes-no 0 M s 1 1 2 c 1 1 2 s 1 1 1 s 1 1 3 e cancel cancel 0 1 e fifths fifths 1 1 e mode mode 0 1 s 0 99 1 s 1 1 3 e key-step step 1 1 e key-alter semitones 1 1 e key-accidental accidental-value 0 1 e key-octave key-octave 0 99
)~~"
R"~~(T cancel fifths 1 location cancel-location 0 -
)~~"
R"~~(T fifths fifths 0  -
)~~"
R"~~(T mode mode 0  -
)~~"
R"~~(T accidental-value accidental-value 0  -
)~~"
R"~~(T key-octave octave 2 number xs:positiveInteger 1 cancel yes-no 0 -
)~~"
R"~~(T time - 15 number staff-number 0 symbol time-symbol 0 separator time-separator 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 print-object yes-no 0 M c 1 1 2 s 1 1 2 s 1 99 1 s 1 1 2 e beats xs:string 1 1 e beat-type xs:string 1 1 e interchangeable interchangeable 0 1 e senza-misura xs:string 1 1
)~~"
R"~~(T interchangeable - 2 symbol time-symbol 0 separator time-separator 0 M s 1 1 2 e time-relation time-relation 0 1 s 1 99 1 s 1 1 2 e beats xs:string 1 1 e beat-type xs:string 1 1
)~~"
R"~~(T time-relation time-relation 0  -
)~~"
R"~~(T part-symbol group-symbol-value 7 top-staff staff-number 0 bottom-staff staff-number 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 color color 0 -
)~~"
R"~~(T clef - 14 number staff-number 0 additional yes-no 0 size symbol-size 0 after-barline yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 print-object yes-no 0 M s 1 1 3 e sign clef-sign 1 1 e line staff-line 0 1 e clef-octave-change xs:integer 0 1
)~~"
R"~~(T clef-sign clef-sign 0  -
)~~"
R"~~(T staff-line staff-line 0  -
)~~"
R"~~(T xs:integer xs:integer 0  -
)~~"
R"~~(T staff-details - 4 number staff-number 0 show-frets show-frets 0 print-object yes-no 0 print-spacing yes-no 0 M s 1 1 5 e staff-type staff-type 0 1 e staff-lines xs:nonNegativeInteger 0 1 e staff-tuning staff-tuning 0 99 e capo xs:nonNegativeInteger 0 1 e staff-size non-negative-decimal 0 1
)~~"
R"~~(T staff-type staff-type 0  -
)~~"
R"~~(T staff-tuning - 1 line staff-line 0 M s 1 1 1 s 1 1 3 e tuning-step step 1 1 e tuning-alter semitones 0 1 e tuning-octave octave 1 1
)~~"
R"~~(T non-negative-decimal non-negative-decimal 0  -
)~~"
R"~~(T transpose - 1 number staff-number 0 M s 1 1 4 e diatonic xs:integer 0 1 e chromatic semitones 1 1 e octave-change xs:integer 0 1 e double empty 0 1
)~~"
R"~~(T directive@2 xs:string 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 xml:lang xml:lang 0 -
)~~"
R"~~(T measure-style - 6 number staff-number 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 M c 1 1 4 e multiple-rest multiple-rest 1 1 e measure-repeat measure-repeat 1 1 e beat-repeat beat-repeat 1 1 e slash slash 1 1
)~~"
R"~~(T multiple-rest positive-integer-or-empty 1 use-symbols yes-no 0 -
)~~"
R"~~(T measure-repeat positive-integer-or-empty 2 type start-stop 1 slashes xs:positiveInteger 0 -
)~~"
R"~~(T beat-repeat - 3 type start-stop 1 slashes xs:positiveInteger 0 use-dots yes-no 0 M s 0 1 1 s 1 1 2 e slash-type note-type-value 1 1 e slash-dot empty 0 99
)~~"
R"~~(T slash - 3 type start-stop 1 use-dots yes-no 0 use-stems yes-no 0 M s 0 1 1 s 1 1 2 e slash-type note-type-value 1 1 e slash-dot empty 0 99
)~~"
R"~~(T harmony - 13 type harmony-type 0 print-object yes-no 0 print-frame yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 placement above-below 0 M s 1 1 5 s 1 99 1 s 1 1 5 c 1 1 2 e root root 1 1 e function style-text 1 1 e kind kind 1 1 e inversion inversion 0 1 e bass bass 0 1 e degree degree 0 99 e frame frame 0 1 e offset offset 0 1 s 1 1 1 s 1 1 2 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1 s 0 1 1 s 1 1 1 e staff xs:positiveInteger 1 1
)~~"
R"~~(T root - 0  M s 1 1 2 e root-step root-step 1 1 e root-alter root-alter 0 1
)~~"
R"~~(T root-step step 10 text xs:token 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T root-alter semitones 11 print-object yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 location left-right 0 -
)~~"
R"~~(T style-text xs:string 9 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T kind kind-value 16 use-symbols yes-no 0 text xs:token 0 stack-degrees yes-no 0 parentheses-degrees yes-no 0 bracket-degrees yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 -
)~~"
R"~~(T inversion xs:nonNegativeInteger 9 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T bass - 0  M s 1 1 2 e bass-step bass-step 1 1 e bass-alter bass-alter 0 1
)~~"
R"~~(T bass-step step 10 text xs:token 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T bass-alter semitones 11 print-object yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 location left-right 0 -
)~~"
R"~~(T degree - 1 print-object yes-no 0 M s 1 1 3 e degree-value degree-value 1 1 e degree-alter degree-alter 1 1 e degree-type degree-type 1 1
)~~"
R"~~(T degree-value xs:positiveInteger 11 symbol degree-symbol-value 0 text xs:token 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T degree-alter semitones 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 plus-minus yes-no 0 -
)~~"
R"~~(T degree-type degree-type-value 10 text xs:token 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 -
)~~"
R"~~(T frame - 10 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 color color 0 halign left-center-right 0 valign valign-image 0 height tenths 0 width tenths 0 unplayed xs:token 0 M s 1 1 4 e frame-strings xs:positiveInteger 1 1 e frame-frets xs:positiveInteger 1 1 e first-fret first-fret 0 1 e frame-note frame-note 1 99
)~~"
R"~~(T first-fret xs:positiveInteger 2 text xs:token 0 location left-right 0 -
)~~"
R"~~(T frame-note - 0  M s 1 1 4 e string string 1 1 e fret fret 1 1 e fingering fingering 0 1 e barre barre 0 1
)~~"
R"~~(T barre - 2 type start-stop 1 color color 0 -
)~~"
R"~~(T figured-bass - 14 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 print-object yes-no 0 print-dot yes-no 0 print-spacing yes-no 0 print-lyric yes-no 0 parentheses yes-no 0 M s 1 1 3 e figure figure 1 99 s 0 1 1 s 1 1 1 e duration positive-divisions 1 1 s 1 1 1 s 1 1 2 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1
)~~"
R"~~(T figure - 0  M s 1 1 4 e prefix style-text 0 1 e figure-number style-text 0 1 e suffix style-text 0 1 e extend extend 0 1
)~~"
R"~~(T print - 5 staff-spacing tenths 0 new-system yes-no 0 new-page yes-no 0 blank-page xs:positiveInteger 0 page-number xs:token 0 M s 1 1 5 s 1 1 1 s 1 1 3 e page-layout page-layout 0 1 e system-layout system-layout 0 1 e staff-layout staff-layout 0 99 e measure-layout measure-layout 0 1 e measure-numbering measure-numbering 0 1 e part-name-display name-display 0 1 e part-abbreviation-display name-display 0 1
)~~"
R"~~(T measure-layout - 0  M s 1 1 1 e measure-distance tenths 0 1
)~~"
R"~~(T measure-numbering measure-numbering-value 11 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 halign left-center-right 0 valign valign 0 -
)~~"
R"~~(T barline - 4 location right-left-middle 0 segno xs:token 0 coda xs:token 0 divisions divisions 0 M s 1 1 8 e bar-style bar-style-color 0 1 s 1 1 1 s 1 1 2 s 0 1 1 s 1 1 1 e footnote formatted-text 1 1 s 0 1 1 s 1 1 1 e level level 1 1 e wavy-line wavy-line 0 1 e segno empty-print-style-align 0 1 e coda empty-print-style-align 0 1 e fermata fermata 0 2 e ending ending 0 1 e repeat repeat 0 1
)~~"
R"~~(T bar-style-color bar-style 1 color color 0 -
)~~"
R"~~(T ending xs:string 15 number ending-number 1 type start-stop-discontinue 1 print-object yes-no 0 default-x tenths 0 default-y tenths 0 relative-x tenths 0 relative-y tenths 0 font-family comma-separated-text 0 font-style font-style 0 font-size font-size 0 font-weight font-weight 0 color color 0 end-length tenths 0 text-x tenths 0 text-y tenths 0 -
)~~"
R"~~(T repeat - 3 direction backward-forward 1 times xs:nonNegativeInteger 0 winged winged 0 -
)~~"
R"~~(T grouping - 3 type start-stop-single 1 number xs:token 0 member-of xs:token 0 M s 1 1 1 e feature feature 0 99
)~~"
R"~~(T feature xs:string 1 type xs:token 0 -
)~~"
R"~~(T score-timewise - 1 version xs:token 0 M s 1 1 2 s 1 1 1 s 1 1 7 e work work 0 1 e movement-number xs:string 0 1 e movement-title xs:string 0 1 e identification identification 0 1 e defaults defaults 0 1 e credit credit 0 99 e part-list part-list 1 1 e measure measure@3 1 99
)~~"
R"~~(T measure@3 - 4 number xs:token 1 implicit yes-no 0 non-controlling yes-no 0 width tenths 0 M s 1 1 1 e part part@4 1 99
)~~"
R"~~(T part@4 - 1 id xs:IDREF 1 M s 1 1 1 s 1 1 1 c 0 99 13 e note note 1 1 e backup backup 1 1 e forward forward 1 1 e direction direction 1 1 e attributes attributes 1 1 e harmony harmony 1 1 e figured-bass figured-bass 1 1 e print print 1 1 e sound sound 1 1 e barline barline 1 1 e grouping grouping 1 1 e link link 1 1 e bookmark bookmark 1 1
)~~"
