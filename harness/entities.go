package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// entityNames are the names of all character references (those without semicolon can be written without)
var entityNames = strings.Fields(`
AElig AElig; AMP AMP; Aacute Aacute; Abreve; Acirc Acirc; Acy; Afr; Agrave Agrave; Alpha; Amacr; And; Aogon; Aopf; ApplyFunction; Aring Aring; Ascr;
Assign; Atilde Atilde; Auml Auml; Backslash; Barv; Barwed; Bcy; Because; Bernoullis; Beta; Bfr; Bopf; Breve; Bscr; Bumpeq; CHcy; COPY COPY; Cacute;
Cap; CapitalDifferentialD; Cayleys; Ccaron; Ccedil Ccedil; Ccirc; Cconint; Cdot; Cedilla; CenterDot; Cfr; Chi; CircleDot; CircleMinus; CirclePlus;
CircleTimes; ClockwiseContourIntegral; CloseCurlyDoubleQuote; CloseCurlyQuote; Colon; Colone; Congruent; Conint; ContourIntegral; Copf; Coproduct;
CounterClockwiseContourIntegral; Cross; Cscr; Cup; CupCap; DD; DDotrahd; DJcy; DScy; DZcy; Dagger; Darr; Dashv; Dcaron; Dcy; Del; Delta; Dfr;
DiacriticalAcute; DiacriticalDot; DiacriticalDoubleAcute; DiacriticalGrave; DiacriticalTilde; Diamond; DifferentialD; Dopf; Dot; DotDot; DotEqual;
DoubleContourIntegral; DoubleDot; DoubleDownArrow; DoubleLeftArrow; DoubleLeftRightArrow; DoubleLeftTee; DoubleLongLeftArrow;
DoubleLongLeftRightArrow; DoubleLongRightArrow; DoubleRightArrow; DoubleRightTee; DoubleUpArrow; DoubleUpDownArrow; DoubleVerticalBar; DownArrow;
DownArrowBar; DownArrowUpArrow; DownBreve; DownLeftRightVector; DownLeftTeeVector; DownLeftVector; DownLeftVectorBar; DownRightTeeVector;
DownRightVector; DownRightVectorBar; DownTee; DownTeeArrow; Downarrow; Dscr; Dstrok; ENG; ETH ETH; Eacute Eacute; Ecaron; Ecirc Ecirc; Ecy; Edot; Efr;
Egrave Egrave; Element; Emacr; EmptySmallSquare; EmptyVerySmallSquare; Eogon; Eopf; Epsilon; Equal; EqualTilde; Equilibrium; Escr; Esim; Eta; Euml
Euml; Exists; ExponentialE; Fcy; Ffr; FilledSmallSquare; FilledVerySmallSquare; Fopf; ForAll; Fouriertrf; Fscr; GJcy; GT GT; Gamma; Gammad; Gbreve;
Gcedil; Gcirc; Gcy; Gdot; Gfr; Gg; Gopf; GreaterEqual; GreaterEqualLess; GreaterFullEqual; GreaterGreater; GreaterLess; GreaterSlantEqual;
GreaterTilde; Gscr; Gt; HARDcy; Hacek; Hat; Hcirc; Hfr; HilbertSpace; Hopf; HorizontalLine; Hscr; Hstrok; HumpDownHump; HumpEqual; IEcy; IJlig; IOcy;
Iacute Iacute; Icirc Icirc; Icy; Idot; Ifr; Igrave Igrave; Im; Imacr; ImaginaryI; Implies; Int; Integral; Intersection; InvisibleComma;
InvisibleTimes; Iogon; Iopf; Iota; Iscr; Itilde; Iukcy; Iuml Iuml; Jcirc; Jcy; Jfr; Jopf; Jscr; Jsercy; Jukcy; KHcy; KJcy; Kappa; Kcedil; Kcy; Kfr;
Kopf; Kscr; LJcy; LT LT; Lacute; Lambda; Lang; Laplacetrf; Larr; Lcaron; Lcedil; Lcy; LeftAngleBracket; LeftArrow; LeftArrowBar; LeftArrowRightArrow;
LeftCeiling; LeftDoubleBracket; LeftDownTeeVector; LeftDownVector; LeftDownVectorBar; LeftFloor; LeftRightArrow; LeftRightVector; LeftTee;
LeftTeeArrow; LeftTeeVector; LeftTriangle; LeftTriangleBar; LeftTriangleEqual; LeftUpDownVector; LeftUpTeeVector; LeftUpVector; LeftUpVectorBar;
LeftVector; LeftVectorBar; Leftarrow; Leftrightarrow; LessEqualGreater; LessFullEqual; LessGreater; LessLess; LessSlantEqual; LessTilde; Lfr; Ll;
Lleftarrow; Lmidot; LongLeftArrow; LongLeftRightArrow; LongRightArrow; Longleftarrow; Longleftrightarrow; Longrightarrow; Lopf; LowerLeftArrow;
LowerRightArrow; Lscr; Lsh; Lstrok; Lt; Map; Mcy; MediumSpace; Mellintrf; Mfr; MinusPlus; Mopf; Mscr; Mu; NJcy; Nacute; Ncaron; Ncedil; Ncy;
NegativeMediumSpace; NegativeThickSpace; NegativeThinSpace; NegativeVeryThinSpace; NestedGreaterGreater; NestedLessLess; NewLine; Nfr; NoBreak;
NonBreakingSpace; Nopf; Not; NotCongruent; NotCupCap; NotDoubleVerticalBar; NotElement; NotEqual; NotEqualTilde; NotExists; NotGreater;
NotGreaterEqual; NotGreaterFullEqual; NotGreaterGreater; NotGreaterLess; NotGreaterSlantEqual; NotGreaterTilde; NotHumpDownHump; NotHumpEqual;
NotLeftTriangle; NotLeftTriangleBar; NotLeftTriangleEqual; NotLess; NotLessEqual; NotLessGreater; NotLessLess; NotLessSlantEqual; NotLessTilde;
NotNestedGreaterGreater; NotNestedLessLess; NotPrecedes; NotPrecedesEqual; NotPrecedesSlantEqual; NotReverseElement; NotRightTriangle;
NotRightTriangleBar; NotRightTriangleEqual; NotSquareSubset; NotSquareSubsetEqual; NotSquareSuperset; NotSquareSupersetEqual; NotSubset;
NotSubsetEqual; NotSucceeds; NotSucceedsEqual; NotSucceedsSlantEqual; NotSucceedsTilde; NotSuperset; NotSupersetEqual; NotTilde; NotTildeEqual;
NotTildeFullEqual; NotTildeTilde; NotVerticalBar; Nscr; Ntilde Ntilde; Nu; OElig; Oacute Oacute; Ocirc Ocirc; Ocy; Odblac; Ofr; Ograve Ograve; Omacr;
Omega; Omicron; Oopf; OpenCurlyDoubleQuote; OpenCurlyQuote; Or; Oscr; Oslash Oslash; Otilde Otilde; Otimes; Ouml Ouml; OverBar; OverBrace;
OverBracket; OverParenthesis; PartialD; Pcy; Pfr; Phi; Pi; PlusMinus; Poincareplane; Popf; Pr; Precedes; PrecedesEqual; PrecedesSlantEqual;
PrecedesTilde; Prime; Product; Proportion; Proportional; Pscr; Psi; QUOT QUOT; Qfr; Qopf; Qscr; RBarr; REG REG; Racute; Rang; Rarr; Rarrtl; Rcaron;
Rcedil; Rcy; Re; ReverseElement; ReverseEquilibrium; ReverseUpEquilibrium; Rfr; Rho; RightAngleBracket; RightArrow; RightArrowBar;
RightArrowLeftArrow; RightCeiling; RightDoubleBracket; RightDownTeeVector; RightDownVector; RightDownVectorBar; RightFloor; RightTee; RightTeeArrow;
RightTeeVector; RightTriangle; RightTriangleBar; RightTriangleEqual; RightUpDownVector; RightUpTeeVector; RightUpVector; RightUpVectorBar;
RightVector; RightVectorBar; Rightarrow; Ropf; RoundImplies; Rrightarrow; Rscr; Rsh; RuleDelayed; SHCHcy; SHcy; SOFTcy; Sacute; Sc; Scaron; Scedil;
Scirc; Scy; Sfr; ShortDownArrow; ShortLeftArrow; ShortRightArrow; ShortUpArrow; Sigma; SmallCircle; Sopf; Sqrt; Square; SquareIntersection;
SquareSubset; SquareSubsetEqual; SquareSuperset; SquareSupersetEqual; SquareUnion; Sscr; Star; Sub; Subset; SubsetEqual; Succeeds; SucceedsEqual;
SucceedsSlantEqual; SucceedsTilde; SuchThat; Sum; Sup; Superset; SupersetEqual; Supset; THORN THORN; TRADE; TSHcy; TScy; Tab; Tau; Tcaron; Tcedil;
Tcy; Tfr; Therefore; Theta; ThickSpace; ThinSpace; Tilde; TildeEqual; TildeFullEqual; TildeTilde; Topf; TripleDot; Tscr; Tstrok; Uacute Uacute; Uarr;
Uarrocir; Ubrcy; Ubreve; Ucirc Ucirc; Ucy; Udblac; Ufr; Ugrave Ugrave; Umacr; UnderBar; UnderBrace; UnderBracket; UnderParenthesis; Union; UnionPlus;
Uogon; Uopf; UpArrow; UpArrowBar; UpArrowDownArrow; UpDownArrow; UpEquilibrium; UpTee; UpTeeArrow; Uparrow; Updownarrow; UpperLeftArrow;
UpperRightArrow; Upsi; Upsilon; Uring; Uscr; Utilde; Uuml Uuml; VDash; Vbar; Vcy; Vdash; Vdashl; Vee; Verbar; Vert; VerticalBar; VerticalLine;
VerticalSeparator; VerticalTilde; VeryThinSpace; Vfr; Vopf; Vscr; Vvdash; Wcirc; Wedge; Wfr; Wopf; Wscr; Xfr; Xi; Xopf; Xscr; YAcy; YIcy; YUcy; Yacute
Yacute; Ycirc; Ycy; Yfr; Yopf; Yscr; Yuml; ZHcy; Zacute; Zcaron; Zcy; Zdot; ZeroWidthSpace; Zeta; Zfr; Zopf; Zscr; aacute aacute; abreve; ac; acE;
acd; acirc acirc; acute acute; acy; aelig aelig; af; afr; agrave agrave; alefsym; aleph; alpha; amacr; amalg; amp amp; and; andand; andd; andslope;
andv; ang; ange; angle; angmsd; angmsdaa; angmsdab; angmsdac; angmsdad; angmsdae; angmsdaf; angmsdag; angmsdah; angrt; angrtvb; angrtvbd; angsph;
angst; angzarr; aogon; aopf; ap; apE; apacir; ape; apid; apos; approx; approxeq; aring aring; ascr; ast; asymp; asympeq; atilde atilde; auml auml;
awconint; awint; bNot; backcong; backepsilon; backprime; backsim; backsimeq; barvee; barwed; barwedge; bbrk; bbrktbrk; bcong; bcy; bdquo; becaus;
because; bemptyv; bepsi; bernou; beta; beth; between; bfr; bigcap; bigcirc; bigcup; bigodot; bigoplus; bigotimes; bigsqcup; bigstar; bigtriangledown;
bigtriangleup; biguplus; bigvee; bigwedge; bkarow; blacklozenge; blacksquare; blacktriangle; blacktriangledown; blacktriangleleft; blacktriangleright;
blank; blk12; blk14; blk34; block; bne; bnequiv; bnot; bopf; bot; bottom; bowtie; boxDL; boxDR; boxDl; boxDr; boxH; boxHD; boxHU; boxHd; boxHu; boxUL;
boxUR; boxUl; boxUr; boxV; boxVH; boxVL; boxVR; boxVh; boxVl; boxVr; boxbox; boxdL; boxdR; boxdl; boxdr; boxh; boxhD; boxhU; boxhd; boxhu; boxminus;
boxplus; boxtimes; boxuL; boxuR; boxul; boxur; boxv; boxvH; boxvL; boxvR; boxvh; boxvl; boxvr; bprime; breve; brvbar brvbar; bscr; bsemi; bsim; bsime;
bsol; bsolb; bsolhsub; bull; bullet; bump; bumpE; bumpe; bumpeq; cacute; cap; capand; capbrcup; capcap; capcup; capdot; caps; caret; caron; ccaps;
ccaron; ccedil ccedil; ccirc; ccups; ccupssm; cdot; cedil cedil; cemptyv; cent cent; centerdot; cfr; chcy; check; checkmark; chi; cir; cirE; circ;
circeq; circlearrowleft; circlearrowright; circledR; circledS; circledast; circledcirc; circleddash; cire; cirfnint; cirmid; cirscir; clubs; clubsuit;
colon; colone; coloneq; comma; commat; comp; compfn; complement; complexes; cong; congdot; conint; copf; coprod; copy copy; copysr; crarr; cross;
cscr; csub; csube; csup; csupe; ctdot; cudarrl; cudarrr; cuepr; cuesc; cularr; cularrp; cup; cupbrcap; cupcap; cupcup; cupdot; cupor; cups; curarr;
curarrm; curlyeqprec; curlyeqsucc; curlyvee; curlywedge; curren curren; curvearrowleft; curvearrowright; cuvee; cuwed; cwconint; cwint; cylcty; dArr;
dHar; dagger; daleth; darr; dash; dashv; dbkarow; dblac; dcaron; dcy; dd; ddagger; ddarr; ddotseq; deg deg; delta; demptyv; dfisht; dfr; dharl; dharr;
diam; diamond; diamondsuit; diams; die; digamma; disin; div; divide divide; divideontimes; divonx; djcy; dlcorn; dlcrop; dollar; dopf; dot; doteq;
doteqdot; dotminus; dotplus; dotsquare; doublebarwedge; downarrow; downdownarrows; downharpoonleft; downharpoonright; drbkarow; drcorn; drcrop; dscr;
dscy; dsol; dstrok; dtdot; dtri; dtrif; duarr; duhar; dwangle; dzcy; dzigrarr; eDDot; eDot; eacute eacute; easter; ecaron; ecir; ecirc ecirc; ecolon;
ecy; edot; ee; efDot; efr; eg; egrave egrave; egs; egsdot; el; elinters; ell; els; elsdot; emacr; empty; emptyset; emptyv; emsp13; emsp14; emsp; eng;
ensp; eogon; eopf; epar; eparsl; eplus; epsi; epsilon; epsiv; eqcirc; eqcolon; eqsim; eqslantgtr; eqslantless; equals; equest; equiv; equivDD;
eqvparsl; erDot; erarr; escr; esdot; esim; eta; eth eth; euml euml; euro; excl; exist; expectation; exponentiale; fallingdotseq; fcy; female; ffilig;
fflig; ffllig; ffr; filig; fjlig; flat; fllig; fltns; fnof; fopf; forall; fork; forkv; fpartint; frac12 frac12; frac13; frac14 frac14; frac15; frac16;
frac18; frac23; frac25; frac34 frac34; frac35; frac38; frac45; frac56; frac58; frac78; frasl; frown; fscr; gE; gEl; gacute; gamma; gammad; gap;
gbreve; gcirc; gcy; gdot; ge; gel; geq; geqq; geqslant; ges; gescc; gesdot; gesdoto; gesdotol; gesl; gesles; gfr; gg; ggg; gimel; gjcy; gl; glE; gla;
glj; gnE; gnap; gnapprox; gne; gneq; gneqq; gnsim; gopf; grave; gscr; gsim; gsime; gsiml; gt gt; gtcc; gtcir; gtdot; gtlPar; gtquest; gtrapprox;
gtrarr; gtrdot; gtreqless; gtreqqless; gtrless; gtrsim; gvertneqq; gvnE; hArr; hairsp; half; hamilt; hardcy; harr; harrcir; harrw; hbar; hcirc;
hearts; heartsuit; hellip; hercon; hfr; hksearow; hkswarow; hoarr; homtht; hookleftarrow; hookrightarrow; hopf; horbar; hscr; hslash; hstrok; hybull;
hyphen; iacute iacute; ic; icirc icirc; icy; iecy; iexcl iexcl; iff; ifr; igrave igrave; ii; iiiint; iiint; iinfin; iiota; ijlig; imacr; image;
imagline; imagpart; imath; imof; imped; in; incare; infin; infintie; inodot; int; intcal; integers; intercal; intlarhk; intprod; iocy; iogon; iopf;
iota; iprod; iquest iquest; iscr; isin; isinE; isindot; isins; isinsv; isinv; it; itilde; iukcy; iuml iuml; jcirc; jcy; jfr; jmath; jopf; jscr;
jsercy; jukcy; kappa; kappav; kcedil; kcy; kfr; kgreen; khcy; kjcy; kopf; kscr; lAarr; lArr; lAtail; lBarr; lE; lEg; lHar; lacute; laemptyv; lagran;
lambda; lang; langd; langle; lap; laquo laquo; larr; larrb; larrbfs; larrfs; larrhk; larrlp; larrpl; larrsim; larrtl; lat; latail; late; lates; lbarr;
lbbrk; lbrace; lbrack; lbrke; lbrksld; lbrkslu; lcaron; lcedil; lceil; lcub; lcy; ldca; ldquo; ldquor; ldrdhar; ldrushar; ldsh; le; leftarrow;
leftarrowtail; leftharpoondown; leftharpoonup; leftleftarrows; leftrightarrow; leftrightarrows; leftrightharpoons; leftrightsquigarrow;
leftthreetimes; leg; leq; leqq; leqslant; les; lescc; lesdot; lesdoto; lesdotor; lesg; lesges; lessapprox; lessdot; lesseqgtr; lesseqqgtr; lessgtr;
lesssim; lfisht; lfloor; lfr; lg; lgE; lhard; lharu; lharul; lhblk; ljcy; ll; llarr; llcorner; llhard; lltri; lmidot; lmoust; lmoustache; lnE; lnap;
lnapprox; lne; lneq; lneqq; lnsim; loang; loarr; lobrk; longleftarrow; longleftrightarrow; longmapsto; longrightarrow; looparrowleft; looparrowright;
lopar; lopf; loplus; lotimes; lowast; lowbar; loz; lozenge; lozf; lpar; lparlt; lrarr; lrcorner; lrhar; lrhard; lrm; lrtri; lsaquo; lscr; lsh; lsim;
lsime; lsimg; lsqb; lsquo; lsquor; lstrok; lt lt; ltcc; ltcir; ltdot; lthree; ltimes; ltlarr; ltquest; ltrPar; ltri; ltrie; ltrif; lurdshar; luruhar;
lvertneqq; lvnE; mDDot; macr macr; male; malt; maltese; map; mapsto; mapstodown; mapstoleft; mapstoup; marker; mcomma; mcy; mdash; measuredangle; mfr;
mho; micro micro; mid; midast; midcir; middot middot; minus; minusb; minusd; minusdu; mlcp; mldr; mnplus; models; mopf; mp; mscr; mstpos; mu;
multimap; mumap; nGg; nGt; nGtv; nLeftarrow; nLeftrightarrow; nLl; nLt; nLtv; nRightarrow; nVDash; nVdash; nabla; nacute; nang; nap; napE; napid;
napos; napprox; natur; natural; naturals; nbsp nbsp; nbump; nbumpe; ncap; ncaron; ncedil; ncong; ncongdot; ncup; ncy; ndash; ne; neArr; nearhk; nearr;
nearrow; nedot; nequiv; nesear; nesim; nexist; nexists; nfr; ngE; nge; ngeq; ngeqq; ngeqslant; nges; ngsim; ngt; ngtr; nhArr; nharr; nhpar; ni; nis;
nisd; niv; njcy; nlArr; nlE; nlarr; nldr; nle; nleftarrow; nleftrightarrow; nleq; nleqq; nleqslant; nles; nless; nlsim; nlt; nltri; nltrie; nmid;
nopf; not not; notin; notinE; notindot; notinva; notinvb; notinvc; notni; notniva; notnivb; notnivc; npar; nparallel; nparsl; npart; npolint; npr;
nprcue; npre; nprec; npreceq; nrArr; nrarr; nrarrc; nrarrw; nrightarrow; nrtri; nrtrie; nsc; nsccue; nsce; nscr; nshortmid; nshortparallel; nsim;
nsime; nsimeq; nsmid; nspar; nsqsube; nsqsupe; nsub; nsubE; nsube; nsubset; nsubseteq; nsubseteqq; nsucc; nsucceq; nsup; nsupE; nsupe; nsupset;
nsupseteq; nsupseteqq; ntgl; ntilde ntilde; ntlg; ntriangleleft; ntrianglelefteq; ntriangleright; ntrianglerighteq; nu; num; numero; numsp; nvDash;
nvHarr; nvap; nvdash; nvge; nvgt; nvinfin; nvlArr; nvle; nvlt; nvltrie; nvrArr; nvrtrie; nvsim; nwArr; nwarhk; nwarr; nwarrow; nwnear; oS; oacute
oacute; oast; ocir; ocirc ocirc; ocy; odash; odblac; odiv; odot; odsold; oelig; ofcir; ofr; ogon; ograve ograve; ogt; ohbar; ohm; oint; olarr; olcir;
olcross; oline; olt; omacr; omega; omicron; omid; ominus; oopf; opar; operp; oplus; or; orarr; ord; order; orderof; ordf ordf; ordm ordm; origof;
oror; orslope; orv; oscr; oslash oslash; osol; otilde otilde; otimes; otimesas; ouml ouml; ovbar; par; para para; parallel; parsim; parsl; part; pcy;
percnt; period; permil; perp; pertenk; pfr; phi; phiv; phmmat; phone; pi; pitchfork; piv; planck; planckh; plankv; plus; plusacir; plusb; pluscir;
plusdo; plusdu; pluse; plusmn plusmn; plussim; plustwo; pm; pointint; popf; pound pound; pr; prE; prap; prcue; pre; prec; precapprox; preccurlyeq;
preceq; precnapprox; precneqq; precnsim; precsim; prime; primes; prnE; prnap; prnsim; prod; profalar; profline; profsurf; prop; propto; prsim; prurel;
pscr; psi; puncsp; qfr; qint; qopf; qprime; qscr; quaternions; quatint; quest; questeq; quot quot; rAarr; rArr; rAtail; rBarr; rHar; race; racute;
radic; raemptyv; rang; rangd; range; rangle; raquo raquo; rarr; rarrap; rarrb; rarrbfs; rarrc; rarrfs; rarrhk; rarrlp; rarrpl; rarrsim; rarrtl; rarrw;
ratail; ratio; rationals; rbarr; rbbrk; rbrace; rbrack; rbrke; rbrksld; rbrkslu; rcaron; rcedil; rceil; rcub; rcy; rdca; rdldhar; rdquo; rdquor; rdsh;
real; realine; realpart; reals; rect; reg reg; rfisht; rfloor; rfr; rhard; rharu; rharul; rho; rhov; rightarrow; rightarrowtail; rightharpoondown;
rightharpoonup; rightleftarrows; rightleftharpoons; rightrightarrows; rightsquigarrow; rightthreetimes; ring; risingdotseq; rlarr; rlhar; rlm; rmoust;
rmoustache; rnmid; roang; roarr; robrk; ropar; ropf; roplus; rotimes; rpar; rpargt; rppolint; rrarr; rsaquo; rscr; rsh; rsqb; rsquo; rsquor; rthree;
rtimes; rtri; rtrie; rtrif; rtriltri; ruluhar; rx; sacute; sbquo; sc; scE; scap; scaron; sccue; sce; scedil; scirc; scnE; scnap; scnsim; scpolint;
scsim; scy; sdot; sdotb; sdote; seArr; searhk; searr; searrow; sect sect; semi; seswar; setminus; setmn; sext; sfr; sfrown; sharp; shchcy; shcy;
shortmid; shortparallel; shy shy; sigma; sigmaf; sigmav; sim; simdot; sime; simeq; simg; simgE; siml; simlE; simne; simplus; simrarr; slarr;
smallsetminus; smashp; smeparsl; smid; smile; smt; smte; smtes; softcy; sol; solb; solbar; sopf; spades; spadesuit; spar; sqcap; sqcaps; sqcup;
sqcups; sqsub; sqsube; sqsubset; sqsubseteq; sqsup; sqsupe; sqsupset; sqsupseteq; squ; square; squarf; squf; srarr; sscr; ssetmn; ssmile; sstarf;
star; starf; straightepsilon; straightphi; strns; sub; subE; subdot; sube; subedot; submult; subnE; subne; subplus; subrarr; subset; subseteq;
subseteqq; subsetneq; subsetneqq; subsim; subsub; subsup; succ; succapprox; succcurlyeq; succeq; succnapprox; succneqq; succnsim; succsim; sum; sung;
sup1 sup1; sup2 sup2; sup3 sup3; sup; supE; supdot; supdsub; supe; supedot; suphsol; suphsub; suplarr; supmult; supnE; supne; supplus; supset;
supseteq; supseteqq; supsetneq; supsetneqq; supsim; supsub; supsup; swArr; swarhk; swarr; swarrow; swnwar; szlig szlig; target; tau; tbrk; tcaron;
tcedil; tcy; tdot; telrec; tfr; there4; therefore; theta; thetasym; thetav; thickapprox; thicksim; thinsp; thkap; thksim; thorn thorn; tilde; times
times; timesb; timesbar; timesd; tint; toea; top; topbot; topcir; topf; topfork; tosa; tprime; trade; triangle; triangledown; triangleleft;
trianglelefteq; triangleq; triangleright; trianglerighteq; tridot; trie; triminus; triplus; trisb; tritime; trpezium; tscr; tscy; tshcy; tstrok;
twixt; twoheadleftarrow; twoheadrightarrow; uArr; uHar; uacute uacute; uarr; ubrcy; ubreve; ucirc ucirc; ucy; udarr; udblac; udhar; ufisht; ufr;
ugrave ugrave; uharl; uharr; uhblk; ulcorn; ulcorner; ulcrop; ultri; umacr; uml uml; uogon; uopf; uparrow; updownarrow; upharpoonleft; upharpoonright;
uplus; upsi; upsih; upsilon; upuparrows; urcorn; urcorner; urcrop; uring; urtri; uscr; utdot; utilde; utri; utrif; uuarr; uuml uuml; uwangle; vArr;
vBar; vBarv; vDash; vangrt; varepsilon; varkappa; varnothing; varphi; varpi; varpropto; varr; varrho; varsigma; varsubsetneq; varsubsetneqq;
varsupsetneq; varsupsetneqq; vartheta; vartriangleleft; vartriangleright; vcy; vdash; vee; veebar; veeeq; vellip; verbar; vert; vfr; vltri; vnsub;
vnsup; vopf; vprop; vrtri; vscr; vsubnE; vsubne; vsupnE; vsupne; vzigzag; wcirc; wedbar; wedge; wedgeq; weierp; wfr; wopf; wp; wr; wreath; wscr; xcap;
xcirc; xcup; xdtri; xfr; xhArr; xharr; xi; xlArr; xlarr; xmap; xnis; xodot; xopf; xoplus; xotime; xrArr; xrarr; xscr; xsqcup; xuplus; xutri; xvee;
xwedge; yacute yacute; yacy; ycirc; ycy; yen yen; yfr; yicy; yopf; yscr; yucy; yuml yuml; zacute; zcaron; zcy; zdot; zeetrf; zeta; zfr; zhcy; zigrarr;
zopf; zscr; zwj; zwnj;
`)

// characters are texts that something might be done about: every character reference, byte and many characters, words
func characters() (r []string) {
	for _, name := range entityNames {
		r = append(r, "&"+name)
	}
	for k := 0; k < 400; k++ {
		r = append(r, fmt.Sprintf("&#%d;", k), fmt.Sprintf("&#x%x;", k), fmt.Sprintf("&#%04d", k), fmt.Sprintf("&#X%X ", k))
	}
	for k := 0; k < 256; k++ {
		r = append(r, string([]byte{byte(k)}), string([]byte{'a', byte(k), 'b'}))
	}
	for _, span := range [][2]rune{{0, 0x400}, {0x1e00, 0x1e10}, {0x2000, 0x2070}, {0x2100, 0x2150}, {0x3000, 0x3010}, {0xd7f0, 0xe010}, {0xfb00, 0xfb10}, {0xfe00, 0x10010}, {0x1f600, 0x1f610}, {0xe0000, 0xe0010}, {0x10fff0, 0x110000}} {
		for c := span[0]; c < span[1]; c++ {
			r = append(r, string(c), "a"+string(c)+"b")
		}
	}
	const words = `null nil undefined true false 0 -0 NaN Inf <nil> %s %d %!s(MISSING) javascript:alert(1) data:text/html,x vbscript:x http://a/?b=1&c=2
		//a mailto:a@b {{.}} {{x}} ${x} <%x%> <?x?> <!x> </x> <x/> <x <a> /* */ // # . .. ! ? @ ~ ^ | _ + -- --- <!-- --> <!--> <!---> --!> ]]> <![CDATA[x]]>
		url(x) expression(x) a;b a:b a,b a=b 'a' "a" &&&& <<<< >>>> """" ''' ; a&b a&b; a&amp b&amp;amp; &;`
	for _, w := range strings.Fields(words) {
		r = append(r, w, " "+w+" ", w+w, strings.ToUpper(w))
	}
	return append(r, " ", "  ", "\n", " \n ", "\r\n", "\n\n", "\t\t", "a  b", "a\n\nb", " a", "a ", "\u00a0a\u00a0", "a\x00", "\x00a", "\x00\x00", "<\x00b>", "&\x00amp;", "&#\x0060;")
}

// fixedA01 has characters as text, and as value of an attribute
func fixedA01() (r []any) {
	all := characters()
	for k := 0; k < len(all); k += 12 {
		n := N{K: "elem", Name: "p"}
		for j := k; j < k+12 && j < len(all); j++ {
			n.Kids = append(n.Kids, N{K: "elem", Name: "b", Kids: []N{textN(str(all[j])), {K: "attr", Name: "title", Vals: []V{str(all[j])}}, {K: "val", Vals: []V{{K: "stringer", S: Str(all[j])}}}}})
			n.Kids = append(n.Kids, N{K: "comment", Vals: []V{str(all[j])}}, N{K: "imp", Ops: []Op{{K: "str", S: Str(all[j])}}})
		}
		r = append(r, &EscSpec{Tree: n})
	}
	return r
}

// fixedA10 has every character, and numbers around every power of two and ten (and all the small ones) in every type
func fixedA10() (r []any) {
	k := 0
	add := func(v V) {
		r = append(r, &ValueSpec{V: v, Routes: []int{k % routes, (k / 7) % routes, 0}})
		k++
	}
	for _, s := range characters() {
		add(str(s))
	}
	for n := int64(-3); n < 40; n++ {
		add(V{K: "nbsp", I: n})
	}
	for _, n := range []int64{63, 64, 65, 99, 100, 127, 128, 129, 254, 255, 256, 257, 999, 1000, 1024, 4096, 10923, 65535, 65536, 65537} {
		add(V{K: "nbsp", I: n})
	}
	for _, kind := range numKinds[:10] {
		signed := kind[0] == 'i'
		bits, _ := strconv.Atoi(strings.TrimLeft(kind, "uint"))
		if bits == 0 {
			bits = 64
		}
		seen := map[uint64]bool{}
		num := func(u uint64) {
			v := V{K: kind, U: u & (1<<bits - 1)}
			if signed {
				v = V{K: kind, I: int64(u<<(64-bits)) >> (64 - bits)}
			}
			if !seen[v.U|uint64(v.I)] {
				seen[v.U|uint64(v.I)] = true
				add(v)
			}
		}
		for u := uint64(0); u < 1100; u++ {
			num(u)
			num(-u)
		}
		for p := uint64(1); p != 0; p *= 2 {
			for d := uint64(0); d < 3; d++ {
				num(p + d - 1)
				num(-(p + d - 1))
			}
		}
		for p, n := uint64(10), 0; n < 19; p, n = p*10, n+1 {
			for d := uint64(0); d < 3; d++ {
				num(p + d - 1)
				num(-(p + d - 1))
			}
		}
	}
	float := func(f float64) {
		for _, x := range []float64{f, -f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1))} {
			add(V{K: "f64", U: math.Float64bits(x)})
		}
		g := float32(f)
		for _, x := range []float32{g, -g, math.Nextafter32(g, 0), math.Nextafter32(g, float32(math.Inf(1)))} {
			add(V{K: "f32", U: uint64(math.Float32bits(x))})
		}
	}
	for e := -1074; e < 1024; e++ {
		float(math.Ldexp(1, e))
	}
	for e := -324; e < 309; e++ {
		for _, m := range []string{"1e", "5e", "1.5e", "9.99e"} {
			f, _ := strconv.ParseFloat(m+strconv.Itoa(e), 64)
			float(f)
		}
	}
	for n := 0; n < 1100; n++ {
		add(V{K: "f64", U: math.Float64bits(float64(n))})
		add(V{K: "f64", U: math.Float64bits(float64(n) / 8)})
		add(V{K: "f64", U: math.Float64bits(float64(n) / 100)})
		add(V{K: "f32", U: uint64(math.Float32bits(float32(n) / 100))})
	}
	for _, bits := range []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000001, 0xfff8000000000000, 0x7ff0000000000001} {
		add(V{K: "f64", U: bits})
	}
	for _, bits := range []uint64{0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001} {
		add(V{K: "f32", U: bits})
	}
	return r
}

// fixedA12 has every character at every place of a name, and all void elements in several cases
func fixedA12() (r []any) {
	var names []string
	seen := map[string]bool{}
	for _, c := range characters() {
		if len([]rune(c)) != 1 || seen[c] {
			continue
		}
		seen[c] = true
		names = append(names, c, "a"+c, "a"+c+"b", c+"a", "ab"+c)
	}
	for name := range modelVoid {
		names = append(names, name, strings.ToUpper(name), strings.ToUpper(name[:1])+name[1:], name+"s", name[:len(name)-1], name+"-", name+".",
			"x"+name, "html:"+name, "svg:"+name, "x-"+name, name+":x", name+"-x", name+".x", name+"1", name+"_", "_"+name, name+name)
	}
	names = append(names, strings.Fields("basefont bgsound command frame image isindex keygen menuitem nextid plaintext spacer template slot noscript script style title textarea xmp listing noembed noframes iframe")...)
	for _, h := range helpers {
		names = append(names, h.Name, strings.ToUpper(h.Name), "x:"+h.Name)
	}
	sort.Strings(names)
	for k, name := range names {
		s := &NameSpec{Panic: k%5 == 0}
		for _, ctor := range []string{"Element", "VoidElement", "Attribute", "BooleanAttribute", "DelimitedAttribute"} {
			s.Uses = append(s.Uses, NameUse{ctor, Str(name)})
		}
		r = append(r, s)
	}
	return r
}

// fixedA20 has every character in the names and values of headers
func fixedA20() (r []any) {
	all := characters()
	for k := 0; k < len(all); k += 15 {
		v := V{K: "hmap", M: map[string]V{}}
		for j := k; j < k+15 && j < len(all); j++ {
			v.M[all[j]] = str(all[j])
		}
		r = append(r, &HeaderSpec{Tree: N{K: "elem", Name: "p", Kids: []N{{K: []string{"headers", "headersjs"}[k%2], Vals: []V{v}}}}})
	}
	return append(r, largeHeaders()...)
}
