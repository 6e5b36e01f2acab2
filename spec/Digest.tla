------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* CRC-32 and SHA-256 over sequences of bytes.  32-bit words are pairs of  *)
(* 16-bit limbs, most significant first.                                   *)
(***************************************************************************)
EXTENDS Words, Bitwise

Xor32(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
And32(a, b) == << a[1] & b[1], a[2] & b[2] >>
Not32(a) == << 65535 - a[1], 65535 - a[2] >>

(* Shift right by 0 < n < 16, rotation to the right by 0 < n < 32.         *)
Shr32(a, n) == << a[1] \div 2^n, (a[2] \div 2^n) + (a[1] % 2^n) * 2^(16-n) >>
Rotr32(a, n) ==
    LET b == IF n >= 16 THEN << a[2], a[1] >> ELSE a
        r == n % 16
    IN  IF r = 0 THEN b
        ELSE << (b[1] \div 2^r) + (b[2] % 2^r) * 2^(16-r), (b[2] \div 2^r) + (b[1] % 2^r) * 2^(16-r) >>

-----------------------------------------------------------------------------
(* CRC-32 (reflected, polynomial 0xedb88320).                              *)
Poly == << 60856, 33568 >>
CrcBit(c, k) == IF c[2] % 2 = 1 THEN Xor32(Shr32(c, 1), Poly) ELSE Shr32(c, 1)
CrcTable == <<
  <<0, 0>>, <<30471, 12438>>, <<60942, 24876>>, <<39177, 20922>>,
  <<1901, 50201>>, <<28778, 62607>>, <<59747, 42293>>, <<40548, 38307>>,
  <<3803, 34866>>, <<31196, 47268>>, <<57557, 59678>>, <<38866, 55688>>,
  <<2486, 19499>>, <<32433, 31933>>, <<59320, 11527>>, <<37055, 7569>>,
  <<7607, 4196>>, <<27312, 8434>>, <<62393, 29000>>, <<33982, 16862>>,
  <<6874, 54397>>, <<28125, 58603>>, <<62676, 46417>>, <<33747, 34247>>,
  <<4972, 38998>>, <<25707, 43200>>, <<64866, 63866>>, <<35429, 51692>>,
  <<5121, 23631>>, <<25350, 27865>>, <<64015, 15715>>, <<36104, 3573>>,
  <<15214, 8392>>, <<19561, 4190>>, <<54624, 16868>>, <<41575, 29042>>,
  <<15363, 58577>>, <<19204, 54343>>, <<53773, 34301>>, <<42250, 46443>>,
  <<13749, 43258>>, <<17074, 39020>>, <<56251, 51670>>, <<44220, 63808>>,
  <<13016, 27875>>, <<17887, 23669>>, <<56534, 3535>>, <<43985, 15705>>,
  <<9945, 12460>>, <<20958, 58>>, <<51415, 20864>>, <<49104, 24854>>,
  <<8628, 62645>>, <<22195, 50211>>, <<53178, 38297>>, <<47293, 42255>>,
  <<10242, 47262>>, <<24325, 34824>>, <<50700, 55730>>, <<45323, 59684>>,
  <<12143, 31879>>, <<22632, 19473>>, <<49505, 7595>>, <<46694, 11581>>,
  <<30428, 16784>>, <<475, 28934>>, <<39122, 8380>>, <<61397, 4138>>,
  <<29105, 34185>>, <<1718, 46367>>, <<40895, 58533>>, <<59576, 54323>>,
  <<30727, 51618>>, <<3840, 63796>>, <<38409, 43150>>, <<57614, 38936>>,
  <<32618, 3515>>, <<2157, 15661>>, <<37220, 27799>>, <<58979, 23553>>,
  <<27499, 20980>>, <<7276, 24930>>, <<34149, 12504>>, <<62050, 78>>,
  <<27654, 38381>>, <<6913, 42363>>, <<33288, 62657>>, <<62735, 50263>>,
  <<26032, 55750>>, <<4791, 59728>>, <<35774, 47338>>, <<64697, 34940>>,
  <<25309, 7647>>, <<5594, 11593>>, <<36051, 31987>>, <<64468, 19557>>,
  <<19890, 24920>>, <<15029, 20942>>, <<41916, 116>>, <<54459, 12514>>,
  <<19167, 42305>>, <<15832, 38359>>, <<42193, 50285>>, <<54230, 62715>>,
  <<17257, 59754>>, <<13422, 55804>>, <<44391, 34886>>, <<55904, 47312>>,
  <<17412, 11635>>, <<13059, 7653>>, <<43530, 19551>>, <<56589, 31945>>,
  <<20485, 28988>>, <<9986, 16810>>, <<48651, 4112>>, <<51468, 8326>>,
  <<22376, 46373>>, <<8303, 34227>>, <<47462, 54281>>, <<52833, 58527>>,
  <<24286, 63758>>, <<10713, 51608>>, <<45264, 38946>>, <<51159, 43188>>,
  <<22963, 15639>>, <<11956, 3457>>, <<47037, 23611>>, <<49338, 27821>>,
  <<60856, 33568>>, <<39615, 46006>>, <<950, 57868>>, <<29873, 53914>>,
  <<60117, 18233>>, <<40402, 30639>>, <<1243, 9749>>, <<29660, 5763>>,
  <<58211, 2834>>, <<37988, 15236>>, <<3437, 27198>>, <<31338, 23208>>,
  <<58382, 53003>>, <<37641, 65437>>, <<2560, 44583>>, <<32007, 40625>>,
  <<61455, 37700>>, <<34568, 41938>>, <<7681, 62056>>, <<26886, 49918>>,
  <<63330, 22365>>, <<32869, 26571>>, <<6508, 13937>>, <<28267, 1767>>,
  <<65236, 7030>>, <<35283, 11232>>, <<4314, 31322>>, <<26589, 19148>>,
  <<63929, 57199>>, <<36542, 61433>>, <<6071, 48707>>, <<24752, 36565>>,
  <<54998, 41960>>, <<41425, 37758>>, <<14552, 49860>>, <<20447, 62034>>,
  <<53691, 26609>>, <<42684, 22375>>, <<16309, 1757>>, <<18610, 13899>>,
  <<55309, 11226>>, <<44810, 6988>>, <<13827, 19190>>, <<16644, 31328>>,
  <<57184, 61379>>, <<43111, 57173>>, <<12654, 36591>>, <<18025, 48761>>,
  <<52065, 45964>>, <<48230, 33562>>, <<9583, 53920>>, <<21096, 57910>>,
  <<52236, 30613>>, <<47883, 18179>>, <<8706, 5817>>, <<21765, 9775>>,
  <<50618, 15294>>, <<45757, 2856>>, <<11188, 23186>>, <<23731, 27140>>,
  <<49879, 65447>>, <<46544, 53041>>, <<11481, 40587>>, <<23518, 44573>>,
  <<39780, 49840>>, <<60515, 61990>>, <<30058, 41884>>, <<621, 37642>>,
  <<39945, 1705>>, <<60174, 13887>>, <<29191, 26501>>, <<1280, 22291>>,
  <<38335, 19074>>, <<58040, 31252>>, <<31665, 11182>>, <<3254, 6968>>,
  <<37586, 36507>>, <<58837, 48653>>, <<31964, 61367>>, <<3035, 57121>>,
  <<34515, 53972>>, <<61908, 57922>>, <<26845, 46072>>, <<8154, 33646>>,
  <<33214, 5837>>, <<63161, 9819>>, <<28592, 30689>>, <<6327, 18295>>,
  <<34824, 23270>>, <<65295, 27248>>, <<26118, 15306>>, <<4353, 2908>>,
  <<36709, 40703>>, <<63586, 44649>>, <<24939, 65491>>, <<5740, 53061>>,
  <<40970, 57976>>, <<55053, 53998>>, <<19972, 33620>>, <<14595, 46018>>,
  <<42855, 9825>>, <<53344, 5879>>, <<18793, 18253>>, <<15982, 30683>>,
  <<44753, 27210>>, <<55766, 23260>>, <<16607, 2918>>, <<14296, 15344>>,
  <<43452, 44627>>, <<57019, 40645>>, <<18354, 53119>>, <<12469, 65513>>,
  <<48573, 61980>>, <<51898, 49802>>, <<21427, 37680>>, <<9396, 41894>>,
  <<47824, 13829>>, <<52695, 1683>>, <<21726, 22313>>, <<9177, 26559>>,
  <<45926, 31278>>, <<50273, 19128>>, <<23912, 6914>>, <<10863, 11156>>,
  <<46091, 48695>>, <<49932, 36513>>, <<23045, 57115>>, <<11522, 61325>> >>
(* The table is what the definition says, ASSUMEd once.                    *)
ASSUME \A i \in 1..256 : CrcTable[i] = FoldLeft(CrcBit, << 0, i - 1 >>, << 1, 2, 3, 4, 5, 6, 7, 8 >>)
CrcByte(c, b) == Xor32(CrcTable[((c[2] % 256) ^^ b) + 1], Shr32(c, 8))
Crc32(bytes) == Not32(FoldLeft(CrcByte, << 65535, 65535 >>, bytes))

-----------------------------------------------------------------------------
(* SHA-256.                                                                *)
ShaInit == << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>
ShaK == <<
  <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>,
  <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>,
  <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
  <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
  <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>,
  <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
  <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>,
  <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>,
  <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
  <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>,
  <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>,
  <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
  <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>,
  <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
  <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
  <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>
>>

Sum(ws) == FoldLeft(Add32, ws[1], Tail(ws))

Sigma0(x) == Xor32(Xor32(Rotr32(x, 2), Rotr32(x, 13)), Rotr32(x, 22))
Sigma1(x) == Xor32(Xor32(Rotr32(x, 6), Rotr32(x, 11)), Rotr32(x, 25))
Small0(x) == Xor32(Xor32(Rotr32(x, 7), Rotr32(x, 18)), Shr32(x, 3))
Small1(x) == Xor32(Xor32(Rotr32(x, 17), Rotr32(Rotr32(x, 9), 10)), Shr32(x, 10))
Ch(e, f, g) == Xor32(And32(e, f), And32(Not32(e), g))
Maj(a, b, c) == Xor32(Xor32(And32(a, b), And32(a, c)), And32(b, c))

(* The 64 words of the schedule of the block P[o+1 .. o+64].               *)
Schedule(P, o) ==
    FoldLeft(LAMBDA w, t : Append(w, Sum(<< Small1(w[t-2]), w[t-7], Small0(w[t-15]), w[t-16] >>)),
             Tup([t \in 1..16 |-> W32FromBytes(P, o + 4*(t-1))], 16), Tup([t \in 1..48 |-> t + 16], 48))

ShaRound(s, kw) ==
    LET t1 == Sum(<< s[8], Sigma1(s[5]), Ch(s[5], s[6], s[7]), kw >>)
        t2 == Add32(Sigma0(s[1]), Maj(s[1], s[2], s[3]))
    IN  << Add32(t1, t2), s[1], s[2], s[3], Add32(s[4], t1), s[5], s[6], s[7] >>

ShaBlock(h, P, o) ==
    LET w == TLCEval(Schedule(P, o))
        r == FoldLeft(LAMBDA s, t : ShaRound(s, Add32(ShaK[t], w[t])), h, Tup([t \in 1..64 |-> t], 64))
    IN  TLCEval(Tup([i \in 1..8 |-> Add32(h[i], r[i])], 8))

(* Message with its padding.                                               *)
Padded(bytes) ==
    LET n == Len(bytes)
        z == (119 - (n % 64)) % 64
        bits == 8 * n
    IN  bytes \o << 128 >> \o Tup([i \in 1..z |-> 0], z)
        \o << 0, 0, 0, 0, bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256 >>

Sha256(bytes) ==
    LET P == TLCEval(Padded(bytes))
        n == Len(P) \div 64
    IN  FoldLeft(LAMBDA h, k : ShaBlock(h, P, 64 * (k - 1)), ShaInit, Tup([k \in 1..n |-> k], n))

(* In hexadecimal, as bytes of lower case characters, without leading      *)
(* zeros (the receiver prints the digest as a number).                     *)
Nibbles(w) == << w[1] \div 4096, (w[1] \div 256) % 16, (w[1] \div 16) % 16, w[1] % 16,
                 w[2] \div 4096, (w[2] \div 256) % 16, (w[2] \div 16) % 16, w[2] % 16 >>
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
DigestText(bytes) ==
    LET ns == FoldLeft(LAMBDA a, w : a \o Nibbles(w), <<>>, Sha256(bytes))
        nz == { i \in 1..Len(ns) : ns[i] # 0 }
        s == CHOOSE i \in nz : \A j \in nz : i <= j
    IN  Tup([k \in 1..(Len(ns) - s + 1) |-> HexChar(ns[s + k - 1])], Len(ns) - s + 1)
=============================================================================
