------------------------------ MODULE Glasses -------------------------------
(* The glasses: name, published index at the d line and Abbe number, and the  *)
(* published dispersion formula                                               *)
(*     n^2 = c0 + sum B/(1 - C/x^2) + sum a*x^p,      x in micrometres         *)
(* s: <<B, C, 1>>, or <<B, c, 2>> when the table gives c with C = c^2.         *)
(* p: <<a, p>>.   Numbers are <<m, e>> = m*10^e.                               *)
(* MCGlasses checks that every formula gives the index and Abbe number.       *)
EXTENDS Integers, Sequences

Glasses == <<
  [name |-> "Air", nd |-> <<1, 0>>, V |-> <<0, -1>>, c0 |-> <<1, 0>>,
   s |-> <<>>,
   p |-> <<>>],
  [name |-> "N_BK7", nd |-> <<15168, -4>>, V |-> <<6417, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<103961212, -8>>, <<600069867, -11>>, 1>>, <<<<231792344, -9>>, <<200179144, -10>>, 1>>, <<<<101046945, -8>>, <<103560653, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SF2", nd |-> <<164769, -5>>, V |-> <<3382, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<147343127, -8>>, <<109019098, -10>>, 1>>, <<<<163681849, -9>>, <<585683687, -10>>, 1>>, <<<<136920899, -8>>, <<127404933, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SF8", nd |-> <<168894, -5>>, V |-> <<3131, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<155075812, -8>>, <<114338344, -10>>, 1>>, <<<<209816918, -9>>, <<582725652, -10>>, 1>>, <<<<146205491, -8>>, <<13324165, -5>>, 1>>>>,
   p |-> <<>>],
  [name |-> "SF2", nd |-> <<164769, -5>>, V |-> <<3385, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<140301821, -8>>, <<105795466, -10>>, 1>>, <<<<231767504, -9>>, <<493226978, -10>>, 1>>, <<<<939056586, -9>>, <<112405955, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "SF5", nd |-> <<16727, -4>>, V |-> <<3221, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<146141885, -8>>, <<111826126, -10>>, 1>>, <<<<247713019, -9>>, <<508594669, -10>>, 1>>, <<<<949995832, -9>>, <<112041888, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SF5", nd |-> <<167271, -5>>, V |-> <<3225, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<152481889, -8>>, <<11254756, -9>>, 1>>, <<<<187085527, -9>>, <<588995392, -10>>, 1>>, <<<<142729015, -8>>, <<129141675, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SF6", nd |-> <<180518, -5>>, V |-> <<2536, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<177931763, -8>>, <<133714182, -10>>, 1>>, <<<<338149866, -9>>, <<617533621, -10>>, 1>>, <<<<208734474, -8>>, <<17401759, -5>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SF6HT", nd |-> <<180518, -5>>, V |-> <<2536, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<177931763, -8>>, <<133714182, -10>>, 1>>, <<<<338149866, -9>>, <<617533621, -10>>, 1>>, <<<<208734474, -8>>, <<17401759, -5>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SF10", nd |-> <<172828, -5>>, V |-> <<2853, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<162153902, -8>>, <<122241457, -10>>, 1>>, <<<<256287842, -9>>, <<595736775, -10>>, 1>>, <<<<164447552, -8>>, <<147468793, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SF11", nd |-> <<178472, -5>>, V |-> <<2568, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<173759695, -8>>, <<13188707, -9>>, 1>>, <<<<313747346, -9>>, <<623068142, -10>>, 1>>, <<<<189878101, -8>>, <<15523629, -5>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SF57", nd |-> <<184666, -5>>, V |-> <<2378, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<187543831, -8>>, <<141749518, -10>>, 1>>, <<<<37375749, -8>>, <<640509927, -10>>, 1>>, <<<<230001797, -8>>, <<177389795, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_BAF10", nd |-> <<167003, -5>>, V |-> <<4711, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<15851495, -7>>, <<926681282, -11>>, 1>>, <<<<143559385, -9>>, <<424489805, -10>>, 1>>, <<<<108521269, -8>>, <<105613573, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "E_BAF11", nd |-> <<166672, -5>>, V |-> <<4831, -2>>, c0 |-> <<271954649, -8>>,
   s |-> <<>>,
   p |-> <<<<<<-100472501, -10>>, 2>>, <<<<200301385, -10>>, -2>>, <<<<465868302, -12>>, -4>>, <<<<-751633336, -14>>, -6>>, <<<<177544989, -14>>, -8>>>>],
  [name |-> "N_BAK1", nd |-> <<15725, -4>>, V |-> <<5755, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<112365662, -8>>, <<644742752, -11>>, 1>>, <<<<309276848, -9>>, <<222284402, -10>>, 1>>, <<<<881511957, -9>>, <<107297751, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_BAK4", nd |-> <<156883, -5>>, V |-> <<5597, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<128834642, -8>>, <<779980626, -11>>, 1>>, <<<<132817724, -9>>, <<315631177, -10>>, 1>>, <<<<945395373, -9>>, <<105965875, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "FK51A", nd |-> <<148656, -5>>, V |-> <<8447, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<971247817, -9>>, <<472301995, -11>>, 1>>, <<<<216901417, -9>>, <<153575612, -10>>, 1>>, <<<<904651666, -9>>, <<16868133, -5>>, 1>>>>,
   p |-> <<>>],
  [name |-> "LAFN7", nd |-> <<17495, -4>>, V |-> <<3495, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<166842615, -8>>, <<103159999, -10>>, 1>>, <<<<298512803, -9>>, <<469216348, -10>>, 1>>, <<<<10774376, -7>>, <<825078509, -7>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_LASF9", nd |-> <<185025, -5>>, V |-> <<3217, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<200029547, -8>>, <<121426017, -10>>, 1>>, <<<<298926886, -9>>, <<538736236, -10>>, 1>>, <<<<180691843, -8>>, <<156530829, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_LAK22", nd |-> <<165113, -5>>, V |-> <<5589, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<114229781, -8>>, <<585778594, -11>>, 1>>, <<<<535138441, -9>>, <<198546147, -10>>, 1>>, <<<<104088385, -8>>, <<100834017, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SSK5", nd |-> <<165844, -5>>, V |-> <<5088, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<159222659, -8>>, <<920284626, -11>>, 1>>, <<<<103520774, -9>>, <<423530072, -10>>, 1>>, <<<<105174016, -8>>, <<106927374, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "E_FD10", nd |-> <<172825, -5>>, V |-> <<2832, -2>>, c0 |-> <<2881518, -6>>,
   s |-> <<>>,
   p |-> <<<<<<-13228312, -9>>, 2>>, <<<<3145559, -8>>, -2>>, <<<<26851666, -10>>, -4>>, <<<<-22577544, -11>>, -6>>, <<<<24693268, -12>>, -8>>>>],
  [name |-> "FusedSilica", nd |-> <<145846, -5>>, V |-> <<6782, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<6961663, -7>>, <<684043, -7>>, 2>>, <<<<4079426, -7>>, <<1162414, -7>>, 2>>, <<<<8974794, -7>>, <<9896161, -6>>, 2>>>>,
   p |-> <<>>],
  [name |-> "N_SK16", nd |-> <<162041, -5>>, V |-> <<6032, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<134317774, -8>>, <<704687339, -11>>, 1>>, <<<<241144399, -9>>, <<229005, -7>>, 1>>, <<<<994317969, -9>>, <<927508526, -7>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_LAK10", nd |-> <<172003, -5>>, V |-> <<5062, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<172878017, -8>>, <<886014635, -11>>, 1>>, <<<<169257825, -9>>, <<363416509, -10>>, 1>>, <<<<119386956, -8>>, <<829009069, -7>>, 1>>>>,
   p |-> <<>>],
  [name |-> "S_BAH11", nd |-> <<166672, -5>>, V |-> <<4832, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<15713886, -7>>, <<910807936, -11>>, 1>>, <<<<147869313, -9>>, <<402401684, -10>>, 1>>, <<<<128092846, -8>>, <<130399367, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "S_TIH6", nd |-> <<180518, -5>>, V |-> <<2542, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<177227611, -8>>, <<131182633, -10>>, 1>>, <<<<34569125, -8>>, <<614479619, -10>>, 1>>, <<<<240788501, -8>>, <<200753254, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_SK2", nd |-> <<160738, -5>>, V |-> <<5665, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<128189012, -8>>, <<72719164, -10>>, 1>>, <<<<257738258, -9>>, <<242823527, -10>>, 1>>, <<<<96818604, -8>>, <<110377773, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "S_PHM52", nd |-> <<1618, -3>>, V |-> <<6333, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<10996655, -7>>, <<132718559, -10>>, 1>>, <<<<478125422, -9>>, <<-601649685, -12>>, 1>>, <<<<113214074, -8>>, <<130595472, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "S_NPH2", nd |-> <<192286, -5>>, V |-> <<189, -1>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<20386951, -7>>, <<170796224, -10>>, 1>>, <<<<437269641, -9>>, <<749254813, -10>>, 1>>, <<<<296711461, -8>>, <<174155354, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "N_PK52A", nd |-> <<1497, -3>>, V |-> <<8161, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<1029607, -6>>, <<516800155, -11>>, 1>>, <<<<1880506, -7>>, <<166658798, -10>>, 1>>, <<<<736488165, -9>>, <<138964129, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "H_LAF3B", nd |-> <<1744, -3>>, V |-> <<449, -1>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<166486969, -8>>, <<895646712, -11>>, 1>>, <<<<30162248, -8>>, <<350299695, -10>>, 1>>, <<<<11973888, -7>>, <<123334438, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "H_ZF52GT", nd |-> <<184666, -5>>, V |-> <<2378, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<409982615, -9>>, <<621421199, -10>>, 1>>, <<<<237517176, -8>>, <<185055134, -6>>, 1>>, <<<<183913582, -8>>, <<136093459, -10>>, 1>>>>,
   p |-> <<>>],
  [name |-> "H_ZF13", nd |-> <<178472, -5>>, V |-> <<2572, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<173521591, -8>>, <<131087904, -10>>, 1>>, <<<<316277446, -9>>, <<621421663, -10>>, 1>>, <<<<216384634, -8>>, <<178845558, -6>>, 1>>>>,
   p |-> <<>>],
  [name |-> "H_ZK50", nd |-> <<160738, -5>>, V |-> <<5665, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<434311306, -9>>, <<-192252587, -11>>, 1>>, <<<<110560033, -8>>, <<147271072, -10>>, 1>>, <<<<988776159, -9>>, <<11041165, -5>>, 1>>>>,
   p |-> <<>>],
  [name |-> "H_F4", nd |-> <<162005, -5>>, V |-> <<3635, -2>>, c0 |-> <<1, 0>>,
   s |-> <<<<<<131898794, -9>>, <<5793195, -8>>, 1>>, <<<<142441827, -8>>, <<106270032, -10>>, 1>>, <<<<121746316, -8>>, <<117376535, -6>>, 1>>>>,
   p |-> <<>>]
>>
=============================================================================
