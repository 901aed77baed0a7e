----------------------------- MODULE Catalogue ------------------------------
(* The parts of the vendors' catalogues with their published prescriptions.   *)
(* Numbers are <<m, e>> = m*10^e; <<9, 99>> means none, or a flat surface.     *)
(*   singlet:   p = <<f, fb, diameter, te, R1, tc, R2>>                        *)
(*   doublet:   p = <<f, fb, diameter, te, R1, tc1, R2, tc2, R3>>              *)
(*   objective: p = <<f, NA, focus to focus, back aperture, working distance,  *)
(*                    magnification, field number>>                            *)
(* mats: <<name of the glass, _>> or <<"", index>>;  w: reference wavelength   *)
(* Transcribed once from the documented prescriptions in the package, after    *)
(* checking them for consistency (DESIGN.md, C24); it is not regenerated.      *)
EXTENDS Integers, Sequences

Catalogue == <<
  [k |-> "doublet", name |-> "ACN254_100_A", lib |-> "thorlabs", label |-> "ACN254-100-A", p |-> <<<<-1001, -1>>, <<-1036, -1>>, <<254, -1>>, <<77, -1>>, <<-52, 0>>, <<2, 0>>, <<499, -1>>, <<4, 0>>, <<6, 2>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN254_075_A", lib |-> "thorlabs", label |-> "ACN254-075-A", p |-> <<<<-751, -1>>, <<-788, -1>>, <<254, -1>>, <<86, -1>>, <<-39, 0>>, <<2, 0>>, <<392, -1>>, <<43, -1>>, <<4898, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN254_050_A", lib |-> "thorlabs", label |-> "ACN254-050-A", p |-> <<<<-5, 1>>, <<-532, -1>>, <<254, -1>>, <<94, -1>>, <<-34, 0>>, <<2, 0>>, <<325, -1>>, <<45, -1>>, <<1892, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN254_040_A", lib |-> "thorlabs", label |-> "ACN254-040-A", p |-> <<<<-401, -1>>, <<-436, -1>>, <<254, -1>>, <<106, -1>>, <<-271, -1>>, <<2, 0>>, <<271, -1>>, <<5, 0>>, <<1892, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF11", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_030_A", lib |-> "thorlabs", label |-> "AC254-030-A", p |-> <<<<3, 1>>, <<229, -1>>, <<254, -1>>, <<88, -1>>, <<209, -1>>, <<12, 0>>, <<-167, -1>>, <<2, 0>>, <<-798, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_035_A", lib |-> "thorlabs", label |-> "AC254-035-A", p |-> <<<<352, -1>>, <<273, -1>>, <<254, -1>>, <<96, -1>>, <<24, 0>>, <<12, 0>>, <<-191, -1>>, <<2, 0>>, <<-1021, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_040_A", lib |-> "thorlabs", label |-> "AC254-040-A", p |-> <<<<401, -1>>, <<334, -1>>, <<254, -1>>, <<74, -1>>, <<237, -1>>, <<1, 1>>, <<-201, -1>>, <<25, -1>>, <<-577, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_045_A", lib |-> "thorlabs", label |-> "AC254-045-A", p |-> <<<<45, 0>>, <<402, -1>>, <<254, -1>>, <<57, -1>>, <<312, -1>>, <<7, 0>>, <<-259, -1>>, <<2, 0>>, <<-1306, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_050_A", lib |-> "thorlabs", label |-> "AC254-050-A", p |-> <<<<502, -1>>, <<434, -1>>, <<254, -1>>, <<87, -1>>, <<333, -1>>, <<9, 0>>, <<-223, -1>>, <<25, -1>>, <<-2911, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_060_A", lib |-> "thorlabs", label |-> "AC254-060-A", p |-> <<<<601, -1>>, <<543, -1>>, <<254, -1>>, <<82, -1>>, <<417, -1>>, <<8, 0>>, <<-259, -1>>, <<25, -1>>, <<-2307, -1>>>>, mats |-> <<<<"E_BAF11", <<9, 99>>>>, <<"E_FD10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_075_A", lib |-> "thorlabs", label |-> "AC254-075-A", p |-> <<<<749, -1>>, <<703, -1>>, <<254, -1>>, <<69, -1>>, <<465, -1>>, <<7, 0>>, <<-339, -1>>, <<25, -1>>, <<-955, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_080_A", lib |-> "thorlabs", label |-> "AC254-080-A", p |-> <<<<8, 1>>, <<753, -1>>, <<254, -1>>, <<73, -1>>, <<496, -1>>, <<7, 0>>, <<-355, -1>>, <<3, 0>>, <<-1012, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_100_A", lib |-> "thorlabs", label |-> "AC254-100-A", p |-> <<<<1001, -1>>, <<971, -1>>, <<254, -1>>, <<47, -1>>, <<6275, -2>>, <<4, 0>>, <<-4571, -2>>, <<25, -1>>, <<-12823, -2>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_125_A", lib |-> "thorlabs", label |-> "AC254-125-A", p |-> <<<<125, 0>>, <<122, 0>>, <<254, -1>>, <<53, -1>>, <<7763, -2>>, <<4, 0>>, <<-5592, -2>>, <<283, -2>>, <<-16082, -2>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_150_A", lib |-> "thorlabs", label |-> "AC254-150-A", p |-> <<<<15, 1>>, <<1461, -1>>, <<254, -1>>, <<66, -1>>, <<916, -1>>, <<57, -1>>, <<-667, -1>>, <<22, -1>>, <<-1977, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_200_A", lib |-> "thorlabs", label |-> "AC254-200-A", p |-> <<<<2002, -1>>, <<194, 0>>, <<254, -1>>, <<57, -1>>, <<774, -1>>, <<4, 0>>, <<-876, -1>>, <<25, -1>>, <<2911, -1>>>>, mats |-> <<<<"N_SSK5", <<9, 99>>>>, <<"LAFN7", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_250_A", lib |-> "thorlabs", label |-> "AC254-250-A", p |-> <<<<25, 1>>, <<2467, -1>>, <<254, -1>>, <<52, -1>>, <<1371, -1>>, <<4, 0>>, <<-1115, -1>>, <<2, 0>>, <<-4592, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_300_A", lib |-> "thorlabs", label |-> "AC254-300-A", p |-> <<<<3002, -1>>, <<297, 0>>, <<254, -1>>, <<54, -1>>, <<1652, -1>>, <<4, 0>>, <<-1371, -1>>, <<2, 0>>, <<-5574, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_400_A", lib |-> "thorlabs", label |-> "AC254-400-A", p |-> <<<<3993, -1>>, <<396, 0>>, <<254, -1>>, <<55, -1>>, <<2198, -1>>, <<4, 0>>, <<-1816, -1>>, <<2, 0>>, <<-7385, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_500_A", lib |-> "thorlabs", label |-> "AC254-500-A", p |-> <<<<5025, -1>>, <<4999, -1>>, <<254, -1>>, <<56, -1>>, <<3373, -1>>, <<4, 0>>, <<-1868, -1>>, <<2, 0>>, <<-5574, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_050_B", lib |-> "thorlabs", label |-> "AC254-050-B", p |-> <<<<5, 1>>, <<45, 0>>, <<254, -1>>, <<62, -1>>, <<3355, -2>>, <<75, -1>>, <<-2705, -2>>, <<18, -1>>, <<-1256, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_075_B", lib |-> "thorlabs", label |-> "AC508-075-B", p |-> <<<<75, 0>>, <<657, -1>>, <<508, -1>>, <<92, -1>>, <<518, -1>>, <<12, 0>>, <<-931, -1>>, <<5, 0>>, <<-2911, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_080_B", lib |-> "thorlabs", label |-> "AC508-080-B", p |-> <<<<8, 1>>, <<695, -1>>, <<508, -1>>, <<103, -1>>, <<518, -1>>, <<16, 0>>, <<-446, -1>>, <<2, 0>>, <<-3126, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_100_B", lib |-> "thorlabs", label |-> "AC508-100-B", p |-> <<<<1, 2>>, <<915, -1>>, <<508, -1>>, <<87, -1>>, <<658, -1>>, <<13, 0>>, <<-56, 0>>, <<2, 0>>, <<-2806, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_150_B", lib |-> "thorlabs", label |-> "AC508-150-B", p |-> <<<<15, 1>>, <<1453, -1>>, <<508, -1>>, <<93, -1>>, <<1122, -1>>, <<82, -1>>, <<-959, -1>>, <<5, 0>>, <<-3251, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_200_B", lib |-> "thorlabs", label |-> "AC508-200-B", p |-> <<<<2, 2>>, <<1932, -1>>, <<508, -1>>, <<101, -1>>, <<134, 0>>, <<82, -1>>, <<-1092, -1>>, <<5, 0>>, <<-5152, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<855, -3>>],
  [k |-> "doublet", name |-> "AC508_250_B", lib |-> "thorlabs", label |-> "AC508-250-B", p |-> <<<<25, 1>>, <<2432, -1>>, <<508, -1>>, <<68, -1>>, <<1212, -1>>, <<66, -1>>, <<-1461, -1>>, <<26, -1>>, <<12359, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<855, -3>>],
  [k |-> "doublet", name |-> "AC508_300_B", lib |-> "thorlabs", label |-> "AC508-300-B", p |-> <<<<3, 2>>, <<2951, -1>>, <<508, -1>>, <<72, -1>>, <<2018, -1>>, <<66, -1>>, <<-1615, -1>>, <<26, -1>>, <<-76, 1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<855, -3>>],
  [k |-> "doublet", name |-> "AC508_400_B", lib |-> "thorlabs", label |-> "AC508-400-B", p |-> <<<<4, 2>>, <<3936, -1>>, <<508, -1>>, <<56, -1>>, <<2806, -1>>, <<45, -1>>, <<-208, 0>>, <<26, -1>>, <<-859, 0>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<855, -3>>],
  [k |-> "doublet", name |-> "AC508_500_B", lib |-> "thorlabs", label |-> "AC508-500-B", p |-> <<<<5, 2>>, <<497, 0>>, <<508, -1>>, <<59, -1>>, <<3467, -1>>, <<45, -1>>, <<-2594, -1>>, <<26, -1>>, <<-11324, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<855, -3>>],
  [k |-> "doublet", name |-> "AC508_750_B", lib |-> "thorlabs", label |-> "AC508-750-B", p |-> <<<<75, 1>>, <<745, 0>>, <<508, -1>>, <<6, 0>>, <<3768, -1>>, <<42, -1>>, <<-2911, -1>>, <<25, -1>>, <<291, 1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<855, -3>>],
  [k |-> "doublet", name |-> "AC508_1000_B", lib |-> "thorlabs", label |-> "AC508-1000-B", p |-> <<<<1, 3>>, <<993, 0>>, <<508, -1>>, <<64, -1>>, <<4943, -1>>, <<42, -1>>, <<-3981, -1>>, <<28, -1>>, <<344, 1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<855, -3>>],
  [k |-> "singlet", name |-> "LA1608_A", lib |-> "thorlabs", label |-> "LA1608_A", p |-> <<<<75, 0>>, <<72, 0>>, <<254, -1>>, <<2, 0>>, <<386, -1>>, <<41, -1>>, <<9, 99>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "singlet", name |-> "LA1134_A", lib |-> "thorlabs", label |-> "LA1134_A", p |-> <<<<6, 1>>, <<567, -1>>, <<254, -1>>, <<2, 0>>, <<309, -1>>, <<47, -1>>, <<9, 99>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "singlet", name |-> "LA1131_A", lib |-> "thorlabs", label |-> "LA1131_A", p |-> <<<<5, 1>>, <<463, -1>>, <<254, -1>>, <<2, 0>>, <<258, -1>>, <<53, -1>>, <<9, 99>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "singlet", name |-> "LA1422_A", lib |-> "thorlabs", label |-> "LA1422_A", p |-> <<<<4, 1>>, <<357, -1>>, <<254, -1>>, <<2, 0>>, <<206, -1>>, <<64, -1>>, <<9, 99>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "singlet", name |-> "LA1805_A", lib |-> "thorlabs", label |-> "LA1805_A", p |-> <<<<3, 1>>, <<242, -1>>, <<254, -1>>, <<2, 0>>, <<155, -1>>, <<86, -1>>, <<9, 99>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "singlet", name |-> "LA1274_A", lib |-> "thorlabs", label |-> "LA1274_A", p |-> <<<<4, 1>>, <<34, 0>>, <<3, 1>>, <<25, -1>>, <<206, -1>>, <<9, 0>>, <<9, 99>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC020_004_A", lib |-> "thorlabs", label |-> "AC020-004-A", p |-> <<<<4, 0>>, <<292, -2>>, <<2, 0>>, <<213, -2>>, <<238, -2>>, <<111, -2>>, <<-218, -2>>, <<13, -1>>, <<-787, -2>>>>, mats |-> <<<<"N_SK16", <<9, 99>>>>, <<"N_LASF9", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_008_A", lib |-> "thorlabs", label |-> "AC050-008-A", p |-> <<<<75, -1>>, <<52, -1>>, <<5, 0>>, <<37, -1>>, <<53, -1>>, <<28, -1>>, <<-39, -1>>, <<17, -1>>, <<-171, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_010_A", lib |-> "thorlabs", label |-> "AC050-010-A", p |-> <<<<1, 1>>, <<79, -1>>, <<5, 0>>, <<37, -1>>, <<66, -1>>, <<25, -1>>, <<-43, -1>>, <<19, -1>>, <<-154, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_015_A", lib |-> "thorlabs", label |-> "AC050-015-A", p |-> <<<<15, 0>>, <<136, -1>>, <<5, 0>>, <<43, -1>>, <<125, -1>>, <<27, -1>>, <<-53, -1>>, <<21, -1>>, <<-121, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC060_010_A", lib |-> "thorlabs", label |-> "AC060-010-A", p |-> <<<<1, 1>>, <<79, -1>>, <<6, 0>>, <<3, 0>>, <<62, -1>>, <<25, -1>>, <<-46, -1>>, <<15, -1>>, <<-196, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_013_A", lib |-> "thorlabs", label |-> "AC064-013-A", p |-> <<<<127, -1>>, <<103, -1>>, <<635, -2>>, <<31, -1>>, <<71, -1>>, <<25, -1>>, <<-59, -1>>, <<15, -1>>, <<-404, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_015_A", lib |-> "thorlabs", label |-> "AC064-015-A", p |-> <<<<15, 0>>, <<13, 0>>, <<635, -2>>, <<32, -1>>, <<88, -1>>, <<25, -1>>, <<-66, -1>>, <<15, -1>>, <<-217, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_010_A", lib |-> "thorlabs", label |-> "AC080-010-A", p |-> <<<<1, 1>>, <<67, -1>>, <<8, 0>>, <<49, -1>>, <<71, -1>>, <<45, -1>>, <<-53, -1>>, <<2, 0>>, <<-227, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_016_A", lib |-> "thorlabs", label |-> "AC080-016-A", p |-> <<<<16, 0>>, <<139, -1>>, <<8, 0>>, <<31, -1>>, <<11, 0>>, <<25, -1>>, <<-92, -1>>, <<15, -1>>, <<-468, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_020_A", lib |-> "thorlabs", label |-> "AC080-020-A", p |-> <<<<2, 1>>, <<178, -1>>, <<8, 0>>, <<3, 0>>, <<111, -1>>, <<25, -1>>, <<-92, -1>>, <<15, -1>>, <<-348, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_030_A", lib |-> "thorlabs", label |-> "AC080-030-A", p |-> <<<<3, 1>>, <<278, -1>>, <<8, 0>>, <<34, -1>>, <<16, 0>>, <<25, -1>>, <<-135, -1>>, <<15, -1>>, <<-594, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_019_A", lib |-> "thorlabs", label |-> "AC127-019-A", p |-> <<<<19, 0>>, <<157, -1>>, <<127, -1>>, <<4, 0>>, <<129, -1>>, <<45, -1>>, <<-11, 0>>, <<15, -1>>, <<-593, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_025_A", lib |-> "thorlabs", label |-> "AC127-025-A", p |-> <<<<25, 0>>, <<215, -1>>, <<127, -1>>, <<56, -1>>, <<188, -1>>, <<5, 0>>, <<-106, -1>>, <<2, 0>>, <<-681, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_030_A", lib |-> "thorlabs", label |-> "AC127-030-A", p |-> <<<<3, 1>>, <<275, -1>>, <<127, -1>>, <<34, -1>>, <<179, -1>>, <<35, -1>>, <<-135, -1>>, <<15, -1>>, <<-442, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_050_A", lib |-> "thorlabs", label |-> "AC127-050-A", p |-> <<<<5, 1>>, <<472, -1>>, <<127, -1>>, <<4, 0>>, <<274, -1>>, <<35, -1>>, <<-225, -1>>, <<15, -1>>, <<-918, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_075_A", lib |-> "thorlabs", label |-> "AC127-075-A", p |-> <<<<75, 0>>, <<729, -1>>, <<127, -1>>, <<34, -1>>, <<413, -1>>, <<25, -1>>, <<-34, 0>>, <<15, -1>>, <<-1371, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_050_A", lib |-> "thorlabs", label |-> "AC300-050-A", p |-> <<<<5, 1>>, <<443, -1>>, <<3, 1>>, <<63, -1>>, <<34, 0>>, <<85, -1>>, <<-294, -1>>, <<2, 0>>, <<-1615, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_080_A", lib |-> "thorlabs", label |-> "AC300-080-A", p |-> <<<<8, 1>>, <<743, -1>>, <<3, 1>>, <<79, -1>>, <<56, 0>>, <<85, -1>>, <<-442, -1>>, <<2, 0>>, <<-2198, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_100_A", lib |-> "thorlabs", label |-> "AC300-100-A", p |-> <<<<1, 2>>, <<964, -1>>, <<3, 1>>, <<5, 0>>, <<7, 1>>, <<5, 0>>, <<-57, 0>>, <<2, 0>>, <<-2844, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_075_A", lib |-> "thorlabs", label |-> "AC508-075-A", p |-> <<<<749, -1>>, <<618, -1>>, <<508, -1>>, <<149, -1>>, <<508, -1>>, <<2, 1>>, <<-417, -1>>, <<3, 0>>, <<-2477, -1>>>>, mats |-> <<<<"E_BAF11", <<9, 99>>>>, <<"N_SF11", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_080_A", lib |-> "thorlabs", label |-> "AC508-080-A", p |-> <<<<8, 1>>, <<699, -1>>, <<508, -1>>, <<105, -1>>, <<549, -1>>, <<16, 0>>, <<-464, -1>>, <<2, 0>>, <<-2472, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_100_A", lib |-> "thorlabs", label |-> "AC508-100-A", p |-> <<<<1, 2>>, <<89, 0>>, <<508, -1>>, <<144, -1>>, <<711, -1>>, <<16, 0>>, <<-442, -1>>, <<4, 0>>, <<-3631, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_150_A", lib |-> "thorlabs", label |-> "AC508-150-A", p |-> <<<<15, 1>>, <<1404, -1>>, <<508, -1>>, <<97, -1>>, <<832, -1>>, <<12, 0>>, <<-721, -1>>, <<3, 0>>, <<-2477, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_180_Ag", lib |-> "thorlabs", label |-> "AC508-180-Ag", p |-> <<<<18, 1>>, <<1727, -1>>, <<508, -1>>, <<94, -1>>, <<1097, -1>>, <<12, 0>>, <<-807, -1>>, <<2, 0>>, <<-2385, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN127_020_A", lib |-> "thorlabs", label |-> "ACN127-020-A", p |-> <<<<-2, 1>>, <<-223, -1>>, <<127, -1>>, <<63, -1>>, <<-135, -1>>, <<15, -1>>, <<143, -1>>, <<3, 0>>, <<879, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN127_025_A", lib |-> "thorlabs", label |-> "ACN127-025-A", p |-> <<<<-25, 0>>, <<-27, 0>>, <<127, -1>>, <<54, -1>>, <<-169, -1>>, <<15, -1>>, <<165, -1>>, <<25, -1>>, <<977, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN127_030_A", lib |-> "thorlabs", label |-> "ACN127-030-A", p |-> <<<<-3, 1>>, <<-322, -1>>, <<127, -1>>, <<52, -1>>, <<-162, -1>>, <<15, -1>>, <<165, -1>>, <<23, -1>>, <<1542, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN127_050_A", lib |-> "thorlabs", label |-> "ACN127-050-A", p |-> <<<<-5, 1>>, <<-523, -1>>, <<127, -1>>, <<46, -1>>, <<-256, -1>>, <<15, -1>>, <<256, -1>>, <<22, -1>>, <<3727, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_200_Ag", lib |-> "thorlabs", label |-> "ACT508-200-Ag", p |-> <<<<2, 2>>, <<1906, -1>>, <<508, -1>>, <<128, -1>>, <<1062, -1>>, <<106, -1>>, <<-921, -1>>, <<6, 0>>, <<-4094, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_250_A", lib |-> "thorlabs", label |-> "ACT508-250-A", p |-> <<<<25, 1>>, <<2414, -1>>, <<508, -1>>, <<123, -1>>, <<1312, -1>>, <<93, -1>>, <<-116, 0>>, <<6, 0>>, <<-5381, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_300_A", lib |-> "thorlabs", label |-> "ACT508-300-A", p |-> <<<<3, 2>>, <<2913, -1>>, <<508, -1>>, <<124, -1>>, <<1537, -1>>, <<84, -1>>, <<-1399, -1>>, <<7, 0>>, <<-7068, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_400_A", lib |-> "thorlabs", label |-> "ACT508-400-A", p |-> <<<<4, 2>>, <<3946, -1>>, <<508, -1>>, <<141, -1>>, <<2923, -1>>, <<8, 0>>, <<-1489, -1>>, <<8, 0>>, <<-3985, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_500_A", lib |-> "thorlabs", label |-> "ACT508-500-A", p |-> <<<<5, 2>>, <<4963, -1>>, <<508, -1>>, <<105, -1>>, <<3825, -1>>, <<6, 0>>, <<-1821, -1>>, <<6, 0>>, <<-4712, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_750_A", lib |-> "thorlabs", label |-> "ACT508-750-A", p |-> <<<<75, 1>>, <<7439, -1>>, <<508, -1>>, <<11, 0>>, <<3986, -1>>, <<6, 0>>, <<-3437, -1>>, <<6, 0>>, <<-15445, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_1000_A", lib |-> "thorlabs", label |-> "ACT508-1000-A", p |-> <<<<1, 3>>, <<9964, -1>>, <<508, -1>>, <<113, -1>>, <<7579, -1>>, <<6, 0>>, <<-3647, -1>>, <<6, 0>>, <<-9542, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_019_AB", lib |-> "thorlabs", label |-> "AC127-019-AB", p |-> <<<<19, 0>>, <<1629, -2>>, <<127, -1>>, <<32, -1>>, <<143, -1>>, <<4, 0>>, <<-138, -1>>, <<1, 0>>, <<-685, -1>>>>, mats |-> <<<<"N_LAK10", <<9, 99>>>>, <<"N_SF57", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_025_AB", lib |-> "thorlabs", label |-> "AC127-025-AB", p |-> <<<<25, 0>>, <<2189, -2>>, <<127, -1>>, <<46, -1>>, <<191, -1>>, <<4, 0>>, <<-178, -1>>, <<2, 0>>, <<-823, -1>>>>, mats |-> <<<<"N_LAK10", <<9, 99>>>>, <<"N_SF57", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_030_AB", lib |-> "thorlabs", label |-> "AC127-030-AB", p |-> <<<<3, 1>>, <<2716, -2>>, <<127, -1>>, <<33, -1>>, <<167, -1>>, <<4, 0>>, <<-138, -1>>, <<1, 0>>, <<-521, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_050_AB", lib |-> "thorlabs", label |-> "AC127-050-AB", p |-> <<<<5, 1>>, <<4656, -2>>, <<127, -1>>, <<5, 0>>, <<263, -1>>, <<4, 0>>, <<-226, -1>>, <<2, 0>>, <<-1024, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_075_AB", lib |-> "thorlabs", label |-> "AC127-075-AB", p |-> <<<<75, 0>>, <<7267, -2>>, <<127, -1>>, <<33, -1>>, <<384, -1>>, <<25, -1>>, <<-35, 0>>, <<15, -1>>, <<-1773, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_030_AB", lib |-> "thorlabs", label |-> "AC254-030-AB", p |-> <<<<3, 1>>, <<2122, -2>>, <<254, -1>>, <<95, -1>>, <<2, 1>>, <<12, 0>>, <<-174, -1>>, <<3, 0>>, <<-931, -1>>>>, mats |-> <<<<"S_BAH11", <<9, 99>>>>, <<"S_TIH6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_050_AB", lib |-> "thorlabs", label |-> "AC254-050-AB", p |-> <<<<5, 1>>, <<4339, -2>>, <<254, -1>>, <<95, -1>>, <<349, -1>>, <<9, 0>>, <<-288, -1>>, <<35, -1>>, <<-1375, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_075_AB", lib |-> "thorlabs", label |-> "AC254-075-AB", p |-> <<<<75, 0>>, <<6872, -2>>, <<254, -1>>, <<1, 1>>, <<52, 0>>, <<8, 0>>, <<-434, -1>>, <<4, 0>>, <<-2174, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_100_AB", lib |-> "thorlabs", label |-> "AC254-100-AB", p |-> <<<<1, 2>>, <<9503, -2>>, <<254, -1>>, <<105, -1>>, <<924, -1>>, <<8, 0>>, <<-482, -1>>, <<4, 0>>, <<-1528, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_150_AB", lib |-> "thorlabs", label |-> "AC254-150-AB", p |-> <<<<15, 1>>, <<14368, -2>>, <<254, -1>>, <<8, 0>>, <<879, -1>>, <<6, 0>>, <<-1056, -1>>, <<3, 0>>, <<9, 99>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_200_AB", lib |-> "thorlabs", label |-> "AC254-200-AB", p |-> <<<<2, 2>>, <<19415, -2>>, <<254, -1>>, <<73, -1>>, <<1171, -1>>, <<5, 0>>, <<-1421, -1>>, <<3, 0>>, <<9, 99>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_080_AB", lib |-> "thorlabs", label |-> "AC508-080-AB", p |-> <<<<8, 1>>, <<7273, -2>>, <<508, -1>>, <<78, -1>>, <<636, -1>>, <<12, 0>>, <<-806, -1>>, <<3, 0>>, <<-1817, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_180_AB", lib |-> "thorlabs", label |-> "AC508-180-AB", p |-> <<<<18, 1>>, <<17352, -2>>, <<508, -1>>, <<102, -1>>, <<1444, -1>>, <<95, -1>>, <<-1154, -1>>, <<4, 0>>, <<-3282, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_300_AB", lib |-> "thorlabs", label |-> "AC508-300-AB", p |-> <<<<3, 2>>, <<28981, -2>>, <<508, -1>>, <<11, 0>>, <<1677, -1>>, <<9, 0>>, <<-2858, -1>>, <<4, 0>>, <<9, 99>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_400_AB", lib |-> "thorlabs", label |-> "AC508-400-AB", p |-> <<<<4, 2>>, <<38856, -2>>, <<508, -1>>, <<112, -1>>, <<1843, -1>>, <<9, 0>>, <<-274, 0>>, <<4, 0>>, <<9, 99>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_500_AB", lib |-> "thorlabs", label |-> "AC508-500-AB", p |-> <<<<5, 2>>, <<48804, -2>>, <<508, -1>>, <<115, -1>>, <<2303, -1>>, <<9, 0>>, <<-3439, -1>>, <<4, 0>>, <<9, 99>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_600_AB", lib |-> "thorlabs", label |-> "AC508-600-AB", p |-> <<<<6, 2>>, <<59052, -2>>, <<508, -1>>, <<118, -1>>, <<2764, -1>>, <<9, 0>>, <<-4139, -1>>, <<4, 0>>, <<9, 99>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC020_004_B", lib |-> "thorlabs", label |-> "AC020-004-B", p |-> <<<<4, 0>>, <<312, -2>>, <<2, 0>>, <<193, -2>>, <<319, -2>>, <<124, -2>>, <<-177, -2>>, <<95, -2>>, <<-523, -2>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_008_B", lib |-> "thorlabs", label |-> "AC050-008-B", p |-> <<<<75, -1>>, <<48, -1>>, <<5, 0>>, <<38, -1>>, <<46, -1>>, <<28, -1>>, <<-39, -1>>, <<18, -1>>, <<-36, 0>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_010_B", lib |-> "thorlabs", label |-> "AC050-010-B", p |-> <<<<1, 1>>, <<8, 0>>, <<5, 0>>, <<32, -1>>, <<66, -1>>, <<22, -1>>, <<-53, -1>>, <<16, -1>>, <<-249, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_015_B", lib |-> "thorlabs", label |-> "AC050-015-B", p |-> <<<<15, 0>>, <<13, 0>>, <<5, 0>>, <<36, -1>>, <<103, -1>>, <<23, -1>>, <<-76, -1>>, <<17, -1>>, <<-321, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC060_010_B", lib |-> "thorlabs", label |-> "AC060-010-B", p |-> <<<<1, 1>>, <<81, -1>>, <<6, 0>>, <<23, -1>>, <<71, -1>>, <<25, -1>>, <<-53, -1>>, <<15, -1>>, <<-195, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_013_B", lib |-> "thorlabs", label |-> "AC064-013-B", p |-> <<<<127, -1>>, <<107, -1>>, <<635, -2>>, <<31, -1>>, <<86, -1>>, <<25, -1>>, <<-67, -1>>, <<14, -1>>, <<-29, 0>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_015_B", lib |-> "thorlabs", label |-> "AC064-015-B", p |-> <<<<15, 0>>, <<131, -1>>, <<635, -2>>, <<32, -1>>, <<103, -1>>, <<24, -1>>, <<-78, -1>>, <<15, -1>>, <<-329, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_010_B", lib |-> "thorlabs", label |-> "AC080-010-B", p |-> <<<<1, 1>>, <<7, 0>>, <<8, 0>>, <<44, -1>>, <<76, -1>>, <<45, -1>>, <<-46, -1>>, <<13, -1>>, <<-306, -1>>>>, mats |-> <<<<"N_LAK10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_016_B", lib |-> "thorlabs", label |-> "AC080-016-B", p |-> <<<<16, 0>>, <<14, 0>>, <<8, 0>>, <<3, 0>>, <<11, 0>>, <<25, -1>>, <<-86, -1>>, <<15, -1>>, <<-358, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_020_B", lib |-> "thorlabs", label |-> "AC080-020-B", p |-> <<<<2, 1>>, <<182, -1>>, <<8, 0>>, <<28, -1>>, <<135, -1>>, <<23, -1>>, <<-106, -1>>, <<13, -1>>, <<-478, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_030_B", lib |-> "thorlabs", label |-> "AC080-030-B", p |-> <<<<3, 1>>, <<277, -1>>, <<8, 0>>, <<35, -1>>, <<185, -1>>, <<25, -1>>, <<-162, -1>>, <<15, -1>>, <<-106, 0>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN127_020_B", lib |-> "thorlabs", label |-> "ACN127-020-B", p |-> <<<<-2, 1>>, <<-225, -1>>, <<127, -1>>, <<64, -1>>, <<-123, -1>>, <<15, -1>>, <<14, 0>>, <<3, 0>>, <<1528, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN127_025_B", lib |-> "thorlabs", label |-> "ACN127-025-B", p |-> <<<<-25, 0>>, <<-277, -1>>, <<127, -1>>, <<59, -1>>, <<-136, -1>>, <<15, -1>>, <<171, -1>>, <<28, -1>>, <<-859, 0>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN127_030_B", lib |-> "thorlabs", label |-> "ACN127-030-B", p |-> <<<<-3, 1>>, <<-32, 0>>, <<127, -1>>, <<53, -1>>, <<-193, -1>>, <<15, -1>>, <<184, -1>>, <<25, -1>>, <<1064, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN127_050_B", lib |-> "thorlabs", label |-> "ACN127-050-B", p |-> <<<<-5, 1>>, <<-525, -1>>, <<127, -1>>, <<43, -1>>, <<-244, -1>>, <<15, -1>>, <<304, -1>>, <<2, 0>>, <<-2911, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_019_B", lib |-> "thorlabs", label |-> "AC127-019-B", p |-> <<<<19, 0>>, <<155, -1>>, <<127, -1>>, <<39, -1>>, <<122, -1>>, <<45, -1>>, <<-106, -1>>, <<15, -1>>, <<-774, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_025_B", lib |-> "thorlabs", label |-> "AC127-025-B", p |-> <<<<25, 0>>, <<211, -1>>, <<127, -1>>, <<54, -1>>, <<162, -1>>, <<5, 0>>, <<-133, -1>>, <<2, 0>>, <<-685, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_030_B", lib |-> "thorlabs", label |-> "AC127-030-B", p |-> <<<<3, 1>>, <<273, -1>>, <<127, -1>>, <<37, -1>>, <<198, -1>>, <<35, -1>>, <<-162, -1>>, <<15, -1>>, <<-791, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_050_B", lib |-> "thorlabs", label |-> "AC127-050-B", p |-> <<<<5, 1>>, <<462, -1>>, <<127, -1>>, <<42, -1>>, <<242, -1>>, <<35, -1>>, <<-268, -1>>, <<15, -1>>, <<25, 1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_075_B", lib |-> "thorlabs", label |-> "AC127-075-B", p |-> <<<<75, 0>>, <<72, 0>>, <<127, -1>>, <<35, -1>>, <<362, -1>>, <<25, -1>>, <<-404, -1>>, <<15, -1>>, <<3981, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN254_040_B", lib |-> "thorlabs", label |-> "ACN254-040-B", p |-> <<<<-4, 1>>, <<-434, -1>>, <<254, -1>>, <<98, -1>>, <<-2443, -2>>, <<2, 0>>, <<2786, -2>>, <<4, 0>>, <<3323, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN254_050_B", lib |-> "thorlabs", label |-> "ACN254-050-B", p |-> <<<<-5, 1>>, <<-538, -1>>, <<254, -1>>, <<91, -1>>, <<-2705, -2>>, <<2, 0>>, <<3391, -2>>, <<4, 0>>, <<-13305, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN254_075_B", lib |-> "thorlabs", label |-> "ACN254-075-B", p |-> <<<<-75, 0>>, <<-789, -1>>, <<254, -1>>, <<79, -1>>, <<-3714, -2>>, <<2, 0>>, <<4639, -2>>, <<38, -1>>, <<-4943, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACN254_100_B", lib |-> "thorlabs", label |-> "ACN254-100-B", p |-> <<<<-1001, -1>>, <<-1039, -1>>, <<254, -1>>, <<69, -1>>, <<-488, -1>>, <<2, 0>>, <<59, 0>>, <<34, -1>>, <<-5808, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_030_B", lib |-> "thorlabs", label |-> "AC254-030-B", p |-> <<<<3, 1>>, <<23, 0>>, <<254, -1>>, <<82, -1>>, <<2109, -2>>, <<12, 0>>, <<-1618, -2>>, <<15, -1>>, <<-7908, -2>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_035_B", lib |-> "thorlabs", label |-> "AC254-035-B", p |-> <<<<35, 0>>, <<284, -1>>, <<254, -1>>, <<75, -1>>, <<2399, -2>>, <<105, -1>>, <<-1862, -2>>, <<15, -1>>, <<-9727, -2>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_040_B", lib |-> "thorlabs", label |-> "AC254-040-B", p |-> <<<<4, 1>>, <<328, -1>>, <<254, -1>>, <<86, -1>>, <<2612, -2>>, <<1, 1>>, <<-2128, -2>>, <<25, -1>>, <<-13709, -2>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_045_B", lib |-> "thorlabs", label |-> "AC254-045-B", p |-> <<<<45, 0>>, <<396, -1>>, <<254, -1>>, <<59, -1>>, <<2938, -2>>, <<78, -1>>, <<-2505, -2>>, <<16, -1>>, <<-12706, -2>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_060_B", lib |-> "thorlabs", label |-> "AC254-060-B", p |-> <<<<6, 1>>, <<558, -1>>, <<254, -1>>, <<51, -1>>, <<3948, -2>>, <<6, 0>>, <<-33, 0>>, <<17, -1>>, <<-1652, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_075_B", lib |-> "thorlabs", label |-> "AC254-075-B", p |-> <<<<75, 0>>, <<699, -1>>, <<254, -1>>, <<45, -1>>, <<369, -1>>, <<5, 0>>, <<-4217, -2>>, <<16, -1>>, <<4178, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_080_B", lib |-> "thorlabs", label |-> "AC254-080-B", p |-> <<<<803, -1>>, <<735, -1>>, <<254, -1>>, <<64, -1>>, <<387, -1>>, <<66, -1>>, <<-432, -1>>, <<2, 0>>, <<374, 0>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_100_B", lib |-> "thorlabs", label |-> "AC254-100-B", p |-> <<<<1, 2>>, <<971, -1>>, <<254, -1>>, <<4, 0>>, <<6668, -2>>, <<4, 0>>, <<-537, -1>>, <<15, -1>>, <<-25941, -2>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_125_B", lib |-> "thorlabs", label |-> "AC254-125-B", p |-> <<<<125, 0>>, <<1154, -1>>, <<254, -1>>, <<1, 1>>, <<445, -1>>, <<6, 0>>, <<-553, -1>>, <<6, 0>>, <<9305, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF8", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_150_B", lib |-> "thorlabs", label |-> "AC254-150-B", p |-> <<<<15, 1>>, <<1446, -1>>, <<254, -1>>, <<65, -1>>, <<836, -1>>, <<4, 0>>, <<-8933, -2>>, <<35, -1>>, <<-13305, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_200_B", lib |-> "thorlabs", label |-> "AC254-200-B", p |-> <<<<2, 2>>, <<1948, -1>>, <<254, -1>>, <<73, -1>>, <<1064, -1>>, <<4, 0>>, <<-966, -1>>, <<4, 0>>, <<2, 3>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_250_B", lib |-> "thorlabs", label |-> "AC254-250-B", p |-> <<<<25, 1>>, <<2375, -1>>, <<254, -1>>, <<47, -1>>, <<52, 0>>, <<4, 0>>, <<-6531, -2>>, <<15, -1>>, <<11151, -2>>>>, mats |-> <<<<"SF5", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_300_B", lib |-> "thorlabs", label |-> "AC254-300-B", p |-> <<<<3, 2>>, <<29, 1>>, <<254, -1>>, <<53, -1>>, <<624, -1>>, <<4, 0>>, <<-774, -1>>, <<2, 0>>, <<134, 0>>>>, mats |-> <<<<"SF5", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_400_B", lib |-> "thorlabs", label |-> "AC254-400-B", p |-> <<<<4, 2>>, <<3911, -1>>, <<254, -1>>, <<48, -1>>, <<836, -1>>, <<35, -1>>, <<-10641, -2>>, <<18, -1>>, <<18155, -2>>>>, mats |-> <<<<"SF5", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_500_B", lib |-> "thorlabs", label |-> "AC254-500-B", p |-> <<<<5, 2>>, <<4808, -1>>, <<254, -1>>, <<56, -1>>, <<606, -1>>, <<4, 0>>, <<-6275, -2>>, <<2, 0>>, <<8757, -2>>>>, mats |-> <<<<"N_SF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_050_B", lib |-> "thorlabs", label |-> "AC300-050-B", p |-> <<<<5, 1>>, <<429, -1>>, <<3, 1>>, <<72, -1>>, <<308, -1>>, <<95, -1>>, <<-279, -1>>, <<2, 0>>, <<-2729, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_080_B", lib |-> "thorlabs", label |-> "AC300-080-B", p |-> <<<<8, 1>>, <<753, -1>>, <<3, 1>>, <<58, -1>>, <<525, -1>>, <<65, -1>>, <<-427, -1>>, <<2, 0>>, <<-2163, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_100_B", lib |-> "thorlabs", label |-> "AC300-100-B", p |-> <<<<1, 2>>, <<94, 0>>, <<3, 1>>, <<59, -1>>, <<491, -1>>, <<6, 0>>, <<-553, -1>>, <<2, 0>>, <<5574, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_200_B", lib |-> "thorlabs", label |-> "ACT508-200-B", p |-> <<<<2, 2>>, <<1932, -1>>, <<508, -1>>, <<98, -1>>, <<121, 0>>, <<82, -1>>, <<-1187, -1>>, <<5, 0>>, <<-4222, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF57", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_250_B", lib |-> "thorlabs", label |-> "ACT508-250-B", p |-> <<<<25, 1>>, <<2418, -1>>, <<508, -1>>, <<114, -1>>, <<1377, -1>>, <<81, -1>>, <<-1377, -1>>, <<6, 0>>, <<-9304, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF11", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_300_B", lib |-> "thorlabs", label |-> "ACT508-300-B", p |-> <<<<3, 2>>, <<2914, -1>>, <<508, -1>>, <<118, -1>>, <<1581, -1>>, <<8, 0>>, <<-1711, -1>>, <<6, 0>>, <<-15299, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF11", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_400_B", lib |-> "thorlabs", label |-> "ACT508-400-B", p |-> <<<<4, 2>>, <<3895, -1>>, <<508, -1>>, <<125, -1>>, <<1898, -1>>, <<8, 0>>, <<-1528, -1>>, <<6, 0>>, <<22909, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_500_B", lib |-> "thorlabs", label |-> "ACT508-500-B", p |-> <<<<5, 2>>, <<4911, -1>>, <<508, -1>>, <<108, -1>>, <<2338, -1>>, <<6, 0>>, <<-1928, -1>>, <<6, 0>>, <<24711, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_750_B", lib |-> "thorlabs", label |-> "ACT508-750-B", p |-> <<<<75, 1>>, <<7424, -1>>, <<508, -1>>, <<102, -1>>, <<3867, -1>>, <<6, 0>>, <<-2696, -1>>, <<5, 0>>, <<9, 99>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_1000_B", lib |-> "thorlabs", label |-> "ACT508-1000-B", p |-> <<<<1, 3>>, <<9911, -1>>, <<508, -1>>, <<114, -1>>, <<4652, -1>>, <<6, 0>>, <<-3887, -1>>, <<6, 0>>, <<47262, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC020_004_C", lib |-> "thorlabs", label |-> "AC020-004-C", p |-> <<<<399, -2>>, <<245, -2>>, <<2, 0>>, <<204, -2>>, <<189, -2>>, <<135, -2>>, <<-2, 0>>, <<1, 0>>, <<-1971, -2>>>>, mats |-> <<<<"S_PHM52", <<9, 99>>>>, <<"S_NPH2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_008_C", lib |-> "thorlabs", label |-> "AC050-008-C", p |-> <<<<75, -1>>, <<52, -1>>, <<5, 0>>, <<31, -1>>, <<46, -1>>, <<25, -1>>, <<-39, -1>>, <<15, -1>>, <<-239, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_010_C", lib |-> "thorlabs", label |-> "AC050-010-C", p |-> <<<<1, 1>>, <<69, -1>>, <<5, 0>>, <<34, -1>>, <<46, -1>>, <<25, -1>>, <<-46, -1>>, <<15, -1>>, <<36, 0>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_015_C", lib |-> "thorlabs", label |-> "AC050-015-C", p |-> <<<<15, 0>>, <<116, -1>>, <<5, 0>>, <<29, -1>>, <<53, -1>>, <<2, 0>>, <<-55, -1>>, <<13, -1>>, <<152, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC060_010_C", lib |-> "thorlabs", label |-> "AC060-010-C", p |-> <<<<1, 1>>, <<85, -1>>, <<6, 0>>, <<39, -1>>, <<104, -1>>, <<35, -1>>, <<-36, -1>>, <<13, -1>>, <<-92, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_013_C", lib |-> "thorlabs", label |-> "AC064-013-C", p |-> <<<<127, -1>>, <<114, -1>>, <<635, -2>>, <<33, -1>>, <<132, -1>>, <<28, -1>>, <<-49, -1>>, <<13, -1>>, <<-124, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_015_C", lib |-> "thorlabs", label |-> "AC064-015-C", p |-> <<<<15, 0>>, <<144, -1>>, <<635, -2>>, <<29, -1>>, <<227, -1>>, <<23, -1>>, <<-49, -1>>, <<13, -1>>, <<-113, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_010_C", lib |-> "thorlabs", label |-> "AC080-010-C", p |-> <<<<1, 1>>, <<72, -1>>, <<8, 0>>, <<39, -1>>, <<71, -1>>, <<42, -1>>, <<-49, -1>>, <<13, -1>>, <<-209, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_016_C", lib |-> "thorlabs", label |-> "AC080-016-C", p |-> <<<<16, 0>>, <<123, -1>>, <<8, 0>>, <<38, -1>>, <<75, -1>>, <<35, -1>>, <<-78, -1>>, <<13, -1>>, <<685, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_020_C", lib |-> "thorlabs", label |-> "AC080-020-C", p |-> <<<<2, 1>>, <<157, -1>>, <<8, 0>>, <<37, -1>>, <<78, -1>>, <<33, -1>>, <<-86, -1>>, <<13, -1>>, <<319, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_030_C", lib |-> "thorlabs", label |-> "AC080-030-C", p |-> <<<<3, 1>>, <<273, -1>>, <<8, 0>>, <<37, -1>>, <<123, -1>>, <<23, -1>>, <<-16, 0>>, <<23, -1>>, <<-704, -1>>>>, mats |-> <<<<"N_PK52A", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_019_C", lib |-> "thorlabs", label |-> "AC127-019-C", p |-> <<<<19, 0>>, <<154, -1>>, <<127, -1>>, <<44, -1>>, <<124, -1>>, <<5, 0>>, <<-1, 1>>, <<15, -1>>, <<-488, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_025_C", lib |-> "thorlabs", label |-> "AC127-025-C", p |-> <<<<25, 0>>, <<203, -1>>, <<127, -1>>, <<46, -1>>, <<12, 0>>, <<47, -1>>, <<-129, -1>>, <<15, -1>>, <<1517, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_030_C", lib |-> "thorlabs", label |-> "AC127-030-C", p |-> <<<<3, 1>>, <<245, -1>>, <<127, -1>>, <<48, -1>>, <<124, -1>>, <<47, -1>>, <<-14, 0>>, <<15, -1>>, <<653, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_050_C", lib |-> "thorlabs", label |-> "AC127-050-C", p |-> <<<<499, -1>>, <<435, -1>>, <<127, -1>>, <<47, -1>>, <<16, 0>>, <<4, 0>>, <<-184, -1>>, <<15, -1>>, <<446, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_075_C", lib |-> "thorlabs", label |-> "AC127-075-C", p |-> <<<<751, -1>>, <<698, -1>>, <<127, -1>>, <<39, -1>>, <<232, -1>>, <<3, 0>>, <<-279, -1>>, <<15, -1>>, <<667, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_030_C", lib |-> "thorlabs", label |-> "AC254-030-C", p |-> <<<<304, -1>>, <<222, -1>>, <<254, -1>>, <<95, -1>>, <<211, -1>>, <<13, 0>>, <<-152, -1>>, <<18, -1>>, <<-711, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_035_C", lib |-> "thorlabs", label |-> "AC254-035-C", p |-> <<<<351, -1>>, <<274, -1>>, <<254, -1>>, <<88, -1>>, <<232, -1>>, <<115, -1>>, <<-179, -1>>, <<18, -1>>, <<-1052, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_040_C", lib |-> "thorlabs", label |-> "AC254-040-C", p |-> <<<<4, 1>>, <<328, -1>>, <<254, -1>>, <<78, -1>>, <<244, -1>>, <<1, 1>>, <<-211, -1>>, <<18, -1>>, <<-1439, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_045_C", lib |-> "thorlabs", label |-> "AC254-045-C", p |-> <<<<45, 0>>, <<367, -1>>, <<254, -1>>, <<77, -1>>, <<229, -1>>, <<96, -1>>, <<-237, -1>>, <<18, -1>>, <<9, 2>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_050_C", lib |-> "thorlabs", label |-> "AC254-050-C", p |-> <<<<5, 1>>, <<412, -1>>, <<254, -1>>, <<73, -1>>, <<229, -1>>, <<9, 0>>, <<-259, -1>>, <<18, -1>>, <<1945, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_060_C", lib |-> "thorlabs", label |-> "AC254-060-C", p |-> <<<<6, 1>>, <<505, -1>>, <<254, -1>>, <<72, -1>>, <<239, -1>>, <<83, -1>>, <<-281, -1>>, <<18, -1>>, <<1121, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_075_C", lib |-> "thorlabs", label |-> "AC254-075-C", p |-> <<<<751, -1>>, <<65, 0>>, <<254, -1>>, <<71, -1>>, <<264, -1>>, <<76, -1>>, <<-294, -1>>, <<18, -1>>, <<849, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_100_C", lib |-> "thorlabs", label |-> "AC254-100-C", p |-> <<<<1001, -1>>, <<904, -1>>, <<254, -1>>, <<66, -1>>, <<321, -1>>, <<65, -1>>, <<-38, 0>>, <<18, -1>>, <<935, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_125_C", lib |-> "thorlabs", label |-> "AC254-125-C", p |-> <<<<125, 0>>, <<11535, -2>>, <<254, -1>>, <<65, -1>>, <<369, -1>>, <<5, 0>>, <<-475, -1>>, <<3, 0>>, <<1086, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_150_C", lib |-> "thorlabs", label |-> "AC254-150-C", p |-> <<<<1505, -1>>, <<1408, -1>>, <<254, -1>>, <<63, -1>>, <<427, -1>>, <<5, 0>>, <<-52, 0>>, <<25, -1>>, <<1115, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_200_C", lib |-> "thorlabs", label |-> "AC254-200-C", p |-> <<<<2001, -1>>, <<1931, -1>>, <<254, -1>>, <<62, -1>>, <<7, 1>>, <<4, 0>>, <<-959, -1>>, <<3, 0>>, <<2743, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_250_C", lib |-> "thorlabs", label |-> "AC254-250-C", p |-> <<<<2492, -1>>, <<2352, -1>>, <<254, -1>>, <<6, 0>>, <<44, 0>>, <<45, -1>>, <<-577, -1>>, <<25, -1>>, <<931, -1>>>>, mats |-> <<<<"N_SF2", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_300_C", lib |-> "thorlabs", label |-> "AC254-300-C", p |-> <<<<2999, -1>>, <<2858, -1>>, <<254, -1>>, <<62, -1>>, <<525, -1>>, <<45, -1>>, <<-685, -1>>, <<25, -1>>, <<1122, -1>>>>, mats |-> <<<<"N_SF2", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_400_C", lib |-> "thorlabs", label |-> "AC254-400-C", p |-> <<<<4001, -1>>, <<3867, -1>>, <<254, -1>>, <<61, -1>>, <<7, 1>>, <<42, -1>>, <<-931, -1>>, <<25, -1>>, <<1514, -1>>>>, mats |-> <<<<"N_SF2", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_500_C", lib |-> "thorlabs", label |-> "AC254-500-C", p |-> <<<<4976, -1>>, <<4867, -1>>, <<254, -1>>, <<5, 0>>, <<879, -1>>, <<35, -1>>, <<-1155, -1>>, <<2, 0>>, <<1945, -1>>>>, mats |-> <<<<"N_SF2", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_050_C", lib |-> "thorlabs", label |-> "AC300-050-C", p |-> <<<<501, -1>>, <<447, -1>>, <<3, 1>>, <<77, -1>>, <<417, -1>>, <<1, 1>>, <<-227, -1>>, <<2, 0>>, <<-757, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_080_C", lib |-> "thorlabs", label |-> "AC300-080-C", p |-> <<<<805, -1>>, <<685, -1>>, <<3, 1>>, <<85, -1>>, <<294, -1>>, <<95, -1>>, <<-339, -1>>, <<2, 0>>, <<977, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC300_100_C", lib |-> "thorlabs", label |-> "AC300-100-C", p |-> <<<<999, -1>>, <<878, -1>>, <<3, 1>>, <<83, -1>>, <<335, -1>>, <<85, -1>>, <<-392, -1>>, <<22, -1>>, <<1007, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_075_C", lib |-> "thorlabs", label |-> "AC508-075-C", p |-> <<<<754, -1>>, <<63, 0>>, <<508, -1>>, <<131, -1>>, <<499, -1>>, <<19, 0>>, <<-391, -1>>, <<25, -1>>, <<-2307, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_080_C", lib |-> "thorlabs", label |-> "AC508-080-C", p |-> <<<<803, -1>>, <<669, -1>>, <<508, -1>>, <<126, -1>>, <<472, -1>>, <<18, 0>>, <<-432, -1>>, <<25, -1>>, <<-6407, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_100_C", lib |-> "thorlabs", label |-> "AC508-100-C", p |-> <<<<997, -1>>, <<83, 0>>, <<508, -1>>, <<128, -1>>, <<447, -1>>, <<17, 0>>, <<-483, -1>>, <<25, -1>>, <<2594, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_150_C", lib |-> "thorlabs", label |-> "AC508-150-C", p |-> <<<<1502, -1>>, <<1177, -1>>, <<508, -1>>, <<177, -1>>, <<395, -1>>, <<18, 0>>, <<-499, -1>>, <<5, 0>>, <<836, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_200_C", lib |-> "thorlabs", label |-> "AC508-200-C", p |-> <<<<1992, -1>>, <<1827, -1>>, <<508, -1>>, <<114, -1>>, <<671, -1>>, <<12, 0>>, <<-876, -1>>, <<3, 0>>, <<2343, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_250_C", lib |-> "thorlabs", label |-> "ACT508-250-C", p |-> <<<<25, 1>>, <<2357, -1>>, <<508, -1>>, <<128, -1>>, <<1047, -1>>, <<1, 1>>, <<-1101, -1>>, <<5, 0>>, <<3495, -1>>>>, mats |-> <<<<"H_LAF3B", <<9, 99>>>>, <<"H_ZF52GT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_300_C", lib |-> "thorlabs", label |-> "ACT508-300-C", p |-> <<<<3, 2>>, <<2908, -1>>, <<508, -1>>, <<134, -1>>, <<1997, -1>>, <<1, 1>>, <<-914, -1>>, <<5, 0>>, <<9, 99>>>>, mats |-> <<<<"H_LAF3B", <<9, 99>>>>, <<"H_ZF13", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_400_C", lib |-> "thorlabs", label |-> "ACT508-400-C", p |-> <<<<4, 2>>, <<3897, -1>>, <<508, -1>>, <<146, -1>>, <<2287, -1>>, <<1, 1>>, <<-649, -1>>, <<6, 0>>, <<9, 99>>>>, mats |-> <<<<"H_ZK50", <<9, 99>>>>, <<"H_F4", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_500_C", lib |-> "thorlabs", label |-> "AC508-500-C", p |-> <<<<4997, -1>>, <<4743, -1>>, <<508, -1>>, <<99, -1>>, <<861, -1>>, <<88, -1>>, <<-1032, -1>>, <<3, 0>>, <<166, 0>>>>, mats |-> <<<<"N_SF5", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_750_C", lib |-> "thorlabs", label |-> "AC508-750-C", p |-> <<<<7489, -1>>, <<7106, -1>>, <<508, -1>>, <<107, -1>>, <<916, -1>>, <<88, -1>>, <<-959, -1>>, <<3, 0>>, <<1306, -1>>>>, mats |-> <<<<"N_SF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_1000_C", lib |-> "thorlabs", label |-> "AC508-1000-C", p |-> <<<<101, 1>>, <<9903, -1>>, <<508, -1>>, <<81, -1>>, <<173, 0>>, <<6, 0>>, <<-2343, -1>>, <<3, 0>>, <<336, 0>>>>, mats |-> <<<<"N_SF5", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_008_A_ML", lib |-> "thorlabs", label |-> "AC050-008-A-ML", p |-> <<<<75, -1>>, <<52, -1>>, <<5, 0>>, <<37, -1>>, <<53, -1>>, <<28, -1>>, <<-39, -1>>, <<17, -1>>, <<-171, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_010_A_ML", lib |-> "thorlabs", label |-> "AC050-010-A-ML", p |-> <<<<1, 1>>, <<79, -1>>, <<5, 0>>, <<37, -1>>, <<66, -1>>, <<25, -1>>, <<-43, -1>>, <<19, -1>>, <<-154, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_015_A_ML", lib |-> "thorlabs", label |-> "AC050-015-A-ML", p |-> <<<<15, 0>>, <<136, -1>>, <<5, 0>>, <<43, -1>>, <<125, -1>>, <<27, -1>>, <<-53, -1>>, <<21, -1>>, <<-121, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC060_010_A_ML", lib |-> "thorlabs", label |-> "AC060-010-A-ML", p |-> <<<<1, 1>>, <<79, -1>>, <<6, 0>>, <<3, 0>>, <<62, -1>>, <<25, -1>>, <<-46, -1>>, <<15, -1>>, <<-196, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_013_A_ML", lib |-> "thorlabs", label |-> "AC064-013-A-ML", p |-> <<<<127, -1>>, <<103, -1>>, <<635, -2>>, <<31, -1>>, <<71, -1>>, <<25, -1>>, <<-59, -1>>, <<15, -1>>, <<-404, -1>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_015_A_ML", lib |-> "thorlabs", label |-> "AC064-015-A-ML", p |-> <<<<15, 0>>, <<13, 0>>, <<635, -2>>, <<32, -1>>, <<88, -1>>, <<25, -1>>, <<-66, -1>>, <<15, -1>>, <<-217, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_010_A_ML", lib |-> "thorlabs", label |-> "AC080-010-A-ML", p |-> <<<<1, 1>>, <<67, -1>>, <<8, 0>>, <<49, -1>>, <<71, -1>>, <<45, -1>>, <<-53, -1>>, <<2, 0>>, <<-227, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_016_A_ML", lib |-> "thorlabs", label |-> "AC080-016-A-ML", p |-> <<<<16, 0>>, <<139, -1>>, <<8, 0>>, <<31, -1>>, <<11, 0>>, <<25, -1>>, <<-92, -1>>, <<15, -1>>, <<-468, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_020_A_ML", lib |-> "thorlabs", label |-> "AC080-020-A-ML", p |-> <<<<2, 1>>, <<178, -1>>, <<8, 0>>, <<3, 0>>, <<111, -1>>, <<25, -1>>, <<-92, -1>>, <<15, -1>>, <<-348, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_030_A_ML", lib |-> "thorlabs", label |-> "AC080-030-A-ML", p |-> <<<<3, 1>>, <<278, -1>>, <<8, 0>>, <<34, -1>>, <<16, 0>>, <<25, -1>>, <<-135, -1>>, <<15, -1>>, <<-594, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_019_A_ML", lib |-> "thorlabs", label |-> "AC127-019-A-ML", p |-> <<<<19, 0>>, <<157, -1>>, <<127, -1>>, <<4, 0>>, <<129, -1>>, <<45, -1>>, <<-11, 0>>, <<15, -1>>, <<-593, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_025_A_ML", lib |-> "thorlabs", label |-> "AC127-025-A-ML", p |-> <<<<25, 0>>, <<215, -1>>, <<127, -1>>, <<56, -1>>, <<188, -1>>, <<5, 0>>, <<-106, -1>>, <<2, 0>>, <<-681, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_030_A_ML", lib |-> "thorlabs", label |-> "AC127-030-A-ML", p |-> <<<<3, 1>>, <<275, -1>>, <<127, -1>>, <<34, -1>>, <<179, -1>>, <<35, -1>>, <<-135, -1>>, <<15, -1>>, <<-442, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_050_A_ML", lib |-> "thorlabs", label |-> "AC127-050-A-ML", p |-> <<<<5, 1>>, <<472, -1>>, <<127, -1>>, <<4, 0>>, <<274, -1>>, <<35, -1>>, <<-225, -1>>, <<15, -1>>, <<-918, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_075_A_ML", lib |-> "thorlabs", label |-> "AC127-075-A-ML", p |-> <<<<75, 0>>, <<729, -1>>, <<127, -1>>, <<34, -1>>, <<413, -1>>, <<25, -1>>, <<-34, 0>>, <<15, -1>>, <<-1371, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_030_A_ML", lib |-> "thorlabs", label |-> "AC254-030-A-ML", p |-> <<<<3, 1>>, <<229, -1>>, <<254, -1>>, <<88, -1>>, <<209, -1>>, <<12, 0>>, <<-167, -1>>, <<2, 0>>, <<-798, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_035_A_ML", lib |-> "thorlabs", label |-> "AC254-035-A-ML", p |-> <<<<35, 0>>, <<273, -1>>, <<254, -1>>, <<96, -1>>, <<24, 0>>, <<12, 0>>, <<-191, -1>>, <<2, 0>>, <<-1021, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_040_A_ML", lib |-> "thorlabs", label |-> "AC254-040-A-ML", p |-> <<<<4, 1>>, <<334, -1>>, <<254, -1>>, <<74, -1>>, <<237, -1>>, <<1, 1>>, <<-201, -1>>, <<25, -1>>, <<-577, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_045_A_ML", lib |-> "thorlabs", label |-> "AC254-045-A-ML", p |-> <<<<45, 0>>, <<402, -1>>, <<254, -1>>, <<57, -1>>, <<312, -1>>, <<7, 0>>, <<-259, -1>>, <<2, 0>>, <<-1306, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_050_A_ML", lib |-> "thorlabs", label |-> "AC254-050-A-ML", p |-> <<<<5, 1>>, <<434, -1>>, <<254, -1>>, <<87, -1>>, <<333, -1>>, <<9, 0>>, <<-223, -1>>, <<25, -1>>, <<-2911, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_075_A_ML", lib |-> "thorlabs", label |-> "AC254-075-A-ML", p |-> <<<<75, 0>>, <<703, -1>>, <<254, -1>>, <<69, -1>>, <<465, -1>>, <<7, 0>>, <<-339, -1>>, <<25, -1>>, <<-955, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_080_A_ML", lib |-> "thorlabs", label |-> "AC254-080-A-ML", p |-> <<<<8, 1>>, <<753, -1>>, <<254, -1>>, <<73, -1>>, <<496, -1>>, <<7, 0>>, <<-355, -1>>, <<3, 0>>, <<-1012, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_100_A_ML", lib |-> "thorlabs", label |-> "AC254-100-A-ML", p |-> <<<<1, 2>>, <<971, -1>>, <<254, -1>>, <<47, -1>>, <<628, -1>>, <<4, 0>>, <<-457, -1>>, <<25, -1>>, <<-1282, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_125_A_ML", lib |-> "thorlabs", label |-> "AC254-125-A-ML", p |-> <<<<125, 0>>, <<122, 0>>, <<254, -1>>, <<5, 0>>, <<776, -1>>, <<4, 0>>, <<-559, -1>>, <<28, -1>>, <<-1608, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_150_A_ML", lib |-> "thorlabs", label |-> "AC254-150-A-ML", p |-> <<<<15, 1>>, <<1461, -1>>, <<254, -1>>, <<66, -1>>, <<916, -1>>, <<57, -1>>, <<-667, -1>>, <<22, -1>>, <<-1977, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_200_A_ML", lib |-> "thorlabs", label |-> "AC254-200-A-ML", p |-> <<<<2, 2>>, <<194, 0>>, <<254, -1>>, <<57, -1>>, <<774, -1>>, <<4, 0>>, <<-876, -1>>, <<25, -1>>, <<2911, -1>>>>, mats |-> <<<<"N_SSK5", <<9, 99>>>>, <<"LAFN7", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_250_A_ML", lib |-> "thorlabs", label |-> "AC254-250-A-ML", p |-> <<<<25, 1>>, <<2467, -1>>, <<254, -1>>, <<52, -1>>, <<1371, -1>>, <<4, 0>>, <<-1115, -1>>, <<2, 0>>, <<-4592, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_300_A_ML", lib |-> "thorlabs", label |-> "AC254-300-A-ML", p |-> <<<<3, 2>>, <<297, 0>>, <<254, -1>>, <<54, -1>>, <<1652, -1>>, <<4, 0>>, <<-1371, -1>>, <<2, 0>>, <<-5574, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_400_A_ML", lib |-> "thorlabs", label |-> "AC254-400-A-ML", p |-> <<<<4, 2>>, <<396, 0>>, <<254, -1>>, <<55, -1>>, <<2198, -1>>, <<4, 0>>, <<-1816, -1>>, <<2, 0>>, <<-7385, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_500_A_ML", lib |-> "thorlabs", label |-> "AC254-500-A-ML", p |-> <<<<5, 2>>, <<4999, -1>>, <<254, -1>>, <<56, -1>>, <<3373, -1>>, <<4, 0>>, <<-1868, -1>>, <<2, 0>>, <<-5574, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_075_A_ML", lib |-> "thorlabs", label |-> "AC508-075-A-ML", p |-> <<<<75, 0>>, <<617, -1>>, <<508, -1>>, <<149, -1>>, <<508, -1>>, <<2, 1>>, <<-417, -1>>, <<3, 0>>, <<-2477, -1>>>>, mats |-> <<<<"E_BAF11", <<9, 99>>>>, <<"N_SF11", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_080_A_ML", lib |-> "thorlabs", label |-> "AC508-080-A-ML", p |-> <<<<8, 1>>, <<699, -1>>, <<508, -1>>, <<105, -1>>, <<549, -1>>, <<16, 0>>, <<-464, -1>>, <<2, 0>>, <<-2472, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_100_A_ML", lib |-> "thorlabs", label |-> "AC508-100-A-ML", p |-> <<<<1, 2>>, <<89, 0>>, <<508, -1>>, <<144, -1>>, <<711, -1>>, <<16, 0>>, <<-442, -1>>, <<4, 0>>, <<-3631, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_150_A_ML", lib |-> "thorlabs", label |-> "AC508-150-A-ML", p |-> <<<<15, 1>>, <<1404, -1>>, <<508, -1>>, <<97, -1>>, <<832, -1>>, <<12, 0>>, <<-721, -1>>, <<3, 0>>, <<-2477, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_180_A_MLd", lib |-> "thorlabs", label |-> "AC508-180-A-MLd", p |-> <<<<18, 1>>, <<1727, -1>>, <<508, -1>>, <<94, -1>>, <<1097, -1>>, <<12, 0>>, <<-807, -1>>, <<2, 0>>, <<-2385, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_200_A_MLd", lib |-> "thorlabs", label |-> "ACT508-200-A-MLd", p |-> <<<<2, 2>>, <<1906, -1>>, <<508, -1>>, <<128, -1>>, <<1062, -1>>, <<106, -1>>, <<-921, -1>>, <<6, 0>>, <<-4094, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_250_A_ML", lib |-> "thorlabs", label |-> "ACT508-250-A-ML", p |-> <<<<25, 1>>, <<2414, -1>>, <<508, -1>>, <<123, -1>>, <<1312, -1>>, <<93, -1>>, <<-116, 0>>, <<6, 0>>, <<-5381, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_300_A_ML", lib |-> "thorlabs", label |-> "ACT508-300-A-ML", p |-> <<<<3, 2>>, <<2913, -1>>, <<508, -1>>, <<124, -1>>, <<1537, -1>>, <<84, -1>>, <<-1399, -1>>, <<7, 0>>, <<-7068, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_400_A_ML", lib |-> "thorlabs", label |-> "ACT508-400-A-ML", p |-> <<<<4, 2>>, <<3946, -1>>, <<508, -1>>, <<141, -1>>, <<2923, -1>>, <<8, 0>>, <<-1489, -1>>, <<8, 0>>, <<-3985, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_500_A_ML", lib |-> "thorlabs", label |-> "ACT508-500-A-ML", p |-> <<<<5, 2>>, <<4963, -1>>, <<508, -1>>, <<105, -1>>, <<3825, -1>>, <<6, 0>>, <<-1821, -1>>, <<6, 0>>, <<-4712, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_750_A_ML", lib |-> "thorlabs", label |-> "ACT508-750-A-ML", p |-> <<<<75, 1>>, <<7439, -1>>, <<508, -1>>, <<11, 0>>, <<3986, -1>>, <<6, 0>>, <<-3437, -1>>, <<6, 0>>, <<-15445, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_1000_A_ML", lib |-> "thorlabs", label |-> "ACT508-1000-A-ML", p |-> <<<<1, 3>>, <<9964, -1>>, <<508, -1>>, <<113, -1>>, <<7579, -1>>, <<6, 0>>, <<-3647, -1>>, <<6, 0>>, <<-9542, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_019_AB_ML", lib |-> "thorlabs", label |-> "AC127-019-AB-ML", p |-> <<<<19, 0>>, <<1629, -2>>, <<127, -1>>, <<32, -1>>, <<143, -1>>, <<4, 0>>, <<-138, -1>>, <<1, 0>>, <<-685, -1>>>>, mats |-> <<<<"N_LAK10", <<9, 99>>>>, <<"N_SF57", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_025_AB_ML", lib |-> "thorlabs", label |-> "AC127-025-AB-ML", p |-> <<<<25, 0>>, <<2189, -2>>, <<127, -1>>, <<46, -1>>, <<191, -1>>, <<4, 0>>, <<-178, -1>>, <<2, 0>>, <<-823, -1>>>>, mats |-> <<<<"N_LAK10", <<9, 99>>>>, <<"N_SF57", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_030_AB_ML", lib |-> "thorlabs", label |-> "AC127-030-AB-ML", p |-> <<<<3, 1>>, <<2716, -2>>, <<127, -1>>, <<33, -1>>, <<167, -1>>, <<4, 0>>, <<-138, -1>>, <<1, 0>>, <<-521, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_050_AB_ML", lib |-> "thorlabs", label |-> "AC127-050-AB-ML", p |-> <<<<5, 1>>, <<4656, -2>>, <<127, -1>>, <<5, 0>>, <<263, -1>>, <<4, 0>>, <<-226, -1>>, <<2, 0>>, <<-1024, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_075_AB_ML", lib |-> "thorlabs", label |-> "AC127-075-AB-ML", p |-> <<<<75, 0>>, <<7267, -2>>, <<127, -1>>, <<33, -1>>, <<384, -1>>, <<25, -1>>, <<-35, 0>>, <<15, -1>>, <<-1773, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF2", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_030_AB_ML", lib |-> "thorlabs", label |-> "AC254-030-AB-ML", p |-> <<<<3, 1>>, <<2122, -2>>, <<254, -1>>, <<95, -1>>, <<2, 1>>, <<12, 0>>, <<-174, -1>>, <<3, 0>>, <<-931, -1>>>>, mats |-> <<<<"S_BAH11", <<9, 99>>>>, <<"S_TIH6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_050_AB_ML", lib |-> "thorlabs", label |-> "AC254-050-AB-ML", p |-> <<<<5, 1>>, <<4339, -2>>, <<254, -1>>, <<95, -1>>, <<349, -1>>, <<9, 0>>, <<-288, -1>>, <<35, -1>>, <<-1375, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_075_AB_ML", lib |-> "thorlabs", label |-> "AC254-075-AB-ML", p |-> <<<<75, 0>>, <<6872, -2>>, <<254, -1>>, <<1, 1>>, <<52, 0>>, <<8, 0>>, <<-434, -1>>, <<4, 0>>, <<-2174, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_100_AB_ML", lib |-> "thorlabs", label |-> "AC254-100-AB-ML", p |-> <<<<1, 2>>, <<9503, -2>>, <<254, -1>>, <<105, -1>>, <<924, -1>>, <<8, 0>>, <<-482, -1>>, <<4, 0>>, <<-1528, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_150_AB_ML", lib |-> "thorlabs", label |-> "AC254-150-AB-ML", p |-> <<<<15, 1>>, <<14368, -2>>, <<254, -1>>, <<8, 0>>, <<879, -1>>, <<6, 0>>, <<-1056, -1>>, <<3, 0>>, <<9, 99>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_200_AB_ML", lib |-> "thorlabs", label |-> "AC254-200-AB-ML", p |-> <<<<2, 2>>, <<19415, -2>>, <<254, -1>>, <<73, -1>>, <<1171, -1>>, <<5, 0>>, <<-1421, -1>>, <<3, 0>>, <<9, 99>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_080_AB_ML", lib |-> "thorlabs", label |-> "AC508-080-AB-ML", p |-> <<<<8, 1>>, <<7273, -2>>, <<508, -1>>, <<78, -1>>, <<636, -1>>, <<12, 0>>, <<-806, -1>>, <<3, 0>>, <<-1817, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_180_AB_ML", lib |-> "thorlabs", label |-> "AC508-180-AB-ML", p |-> <<<<18, 1>>, <<17352, -2>>, <<508, -1>>, <<102, -1>>, <<1444, -1>>, <<95, -1>>, <<-1154, -1>>, <<4, 0>>, <<-3282, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_300_AB_ML", lib |-> "thorlabs", label |-> "AC508-300-AB-ML", p |-> <<<<3, 2>>, <<28981, -2>>, <<508, -1>>, <<11, 0>>, <<1677, -1>>, <<9, 0>>, <<-2858, -1>>, <<4, 0>>, <<9, 99>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_400_AB_ML", lib |-> "thorlabs", label |-> "AC508-400-AB-ML", p |-> <<<<4, 2>>, <<38856, -2>>, <<508, -1>>, <<112, -1>>, <<1843, -1>>, <<9, 0>>, <<-274, 0>>, <<4, 0>>, <<9, 99>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_500_AB_ML", lib |-> "thorlabs", label |-> "AC508-500-AB-ML", p |-> <<<<5, 2>>, <<48804, -2>>, <<508, -1>>, <<115, -1>>, <<2303, -1>>, <<9, 0>>, <<-3439, -1>>, <<4, 0>>, <<9, 99>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_600_AB_ML", lib |-> "thorlabs", label |-> "AC508-600-AB-ML", p |-> <<<<6, 2>>, <<59052, -2>>, <<508, -1>>, <<118, -1>>, <<2764, -1>>, <<9, 0>>, <<-4139, -1>>, <<4, 0>>, <<9, 99>>>>, mats |-> <<<<"N_BAK4", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_008_B_ML", lib |-> "thorlabs", label |-> "AC050-008-B-ML", p |-> <<<<75, -1>>, <<48, -1>>, <<5, 0>>, <<38, -1>>, <<46, -1>>, <<28, -1>>, <<-39, -1>>, <<18, -1>>, <<-36, 0>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_010_B_ML", lib |-> "thorlabs", label |-> "AC050-010-B-ML", p |-> <<<<1, 1>>, <<8, 0>>, <<5, 0>>, <<32, -1>>, <<66, -1>>, <<22, -1>>, <<-53, -1>>, <<16, -1>>, <<-249, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_015_B_ML", lib |-> "thorlabs", label |-> "AC050-015-B-ML", p |-> <<<<15, 0>>, <<13, 0>>, <<5, 0>>, <<36, -1>>, <<103, -1>>, <<23, -1>>, <<-76, -1>>, <<17, -1>>, <<-321, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC060_010_B_ML", lib |-> "thorlabs", label |-> "AC060-010-B-ML", p |-> <<<<1, 1>>, <<81, -1>>, <<6, 0>>, <<23, -1>>, <<71, -1>>, <<25, -1>>, <<-53, -1>>, <<15, -1>>, <<-195, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_013_B_ML", lib |-> "thorlabs", label |-> "AC064-013-B-ML", p |-> <<<<127, -1>>, <<107, -1>>, <<635, -2>>, <<31, -1>>, <<86, -1>>, <<25, -1>>, <<-67, -1>>, <<14, -1>>, <<-29, 0>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_015_B_ML", lib |-> "thorlabs", label |-> "AC064-015-B-ML", p |-> <<<<15, 0>>, <<131, -1>>, <<635, -2>>, <<32, -1>>, <<103, -1>>, <<24, -1>>, <<-78, -1>>, <<15, -1>>, <<-329, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_010_B_ML", lib |-> "thorlabs", label |-> "AC080-010-B-ML", p |-> <<<<1, 1>>, <<7, 0>>, <<8, 0>>, <<44, -1>>, <<76, -1>>, <<45, -1>>, <<-46, -1>>, <<13, -1>>, <<-306, -1>>>>, mats |-> <<<<"N_LAK10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_016_B_ML", lib |-> "thorlabs", label |-> "AC080-016-B-ML", p |-> <<<<16, 0>>, <<14, 0>>, <<8, 0>>, <<3, 0>>, <<11, 0>>, <<25, -1>>, <<-86, -1>>, <<15, -1>>, <<-358, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_020_B_ML", lib |-> "thorlabs", label |-> "AC080-020-B-ML", p |-> <<<<2, 1>>, <<182, -1>>, <<8, 0>>, <<28, -1>>, <<135, -1>>, <<23, -1>>, <<-106, -1>>, <<13, -1>>, <<-478, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_030_B_ML", lib |-> "thorlabs", label |-> "AC080-030-B-ML", p |-> <<<<3, 1>>, <<277, -1>>, <<8, 0>>, <<35, -1>>, <<185, -1>>, <<25, -1>>, <<-162, -1>>, <<15, -1>>, <<-106, 0>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_019_B_ML", lib |-> "thorlabs", label |-> "AC127-019-B-ML", p |-> <<<<19, 0>>, <<155, -1>>, <<127, -1>>, <<39, -1>>, <<122, -1>>, <<45, -1>>, <<-106, -1>>, <<15, -1>>, <<-774, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_025_B_ML", lib |-> "thorlabs", label |-> "AC127-025-B-ML", p |-> <<<<25, 0>>, <<211, -1>>, <<127, -1>>, <<54, -1>>, <<162, -1>>, <<5, 0>>, <<-133, -1>>, <<2, 0>>, <<-685, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_030_B_ML", lib |-> "thorlabs", label |-> "AC127-030-B-ML", p |-> <<<<3, 1>>, <<273, -1>>, <<127, -1>>, <<37, -1>>, <<198, -1>>, <<35, -1>>, <<-162, -1>>, <<15, -1>>, <<-798, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_050_B_ML", lib |-> "thorlabs", label |-> "AC127-050-B-ML", p |-> <<<<5, 1>>, <<462, -1>>, <<127, -1>>, <<42, -1>>, <<242, -1>>, <<35, -1>>, <<-268, -1>>, <<15, -1>>, <<25, 1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_075_B_ML", lib |-> "thorlabs", label |-> "AC127-075-B-ML", p |-> <<<<75, 0>>, <<72, 0>>, <<127, -1>>, <<35, -1>>, <<362, -1>>, <<25, -1>>, <<-404, -1>>, <<15, -1>>, <<3981, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_030_B_ML", lib |-> "thorlabs", label |-> "AC254-030-B-ML", p |-> <<<<3, 1>>, <<23, 0>>, <<254, -1>>, <<82, -1>>, <<2109, -2>>, <<12, 0>>, <<-1618, -2>>, <<15, -1>>, <<-7908, -2>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_035_B_ML", lib |-> "thorlabs", label |-> "AC254-035-B-ML", p |-> <<<<35, 0>>, <<284, -1>>, <<254, -1>>, <<75, -1>>, <<2399, -2>>, <<105, -1>>, <<-1862, -2>>, <<15, -1>>, <<-9727, -2>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_040_B_ML", lib |-> "thorlabs", label |-> "AC254-040-B-ML", p |-> <<<<4, 1>>, <<328, -1>>, <<254, -1>>, <<86, -1>>, <<2612, -2>>, <<1, 1>>, <<-2128, -2>>, <<25, -1>>, <<-13709, -2>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_045_B_ML", lib |-> "thorlabs", label |-> "AC254-045-B-ML", p |-> <<<<45, 0>>, <<396, -1>>, <<254, -1>>, <<59, -1>>, <<2938, -2>>, <<78, -1>>, <<-2505, -2>>, <<16, -1>>, <<-12706, -2>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_050_B_ML", lib |-> "thorlabs", label |-> "AC254-050-B-ML", p |-> <<<<5, 1>>, <<45, 0>>, <<254, -1>>, <<62, -1>>, <<3355, -2>>, <<75, -1>>, <<-2705, -2>>, <<18, -1>>, <<-1256, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_060_B_ML", lib |-> "thorlabs", label |-> "AC254-060-B-ML", p |-> <<<<6, 1>>, <<558, -1>>, <<254, -1>>, <<51, -1>>, <<3948, -2>>, <<6, 0>>, <<-33, 0>>, <<17, -1>>, <<-1652, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_075_B_ML", lib |-> "thorlabs", label |-> "AC254-075-B-ML", p |-> <<<<75, 0>>, <<699, -1>>, <<254, -1>>, <<45, -1>>, <<369, -1>>, <<5, 0>>, <<-4217, -2>>, <<16, -1>>, <<4178, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_080_B_ML", lib |-> "thorlabs", label |-> "AC254-080-B-ML", p |-> <<<<803, -1>>, <<735, -1>>, <<254, -1>>, <<64, -1>>, <<387, -1>>, <<66, -1>>, <<-432, -1>>, <<2, 0>>, <<374, 0>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_100_B_ML", lib |-> "thorlabs", label |-> "AC254-100-B-ML", p |-> <<<<1, 2>>, <<971, -1>>, <<254, -1>>, <<4, 0>>, <<6668, -2>>, <<4, 0>>, <<-537, -1>>, <<15, -1>>, <<-25941, -2>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_125_B_ML", lib |-> "thorlabs", label |-> "AC254-125-B-ML", p |-> <<<<125, 0>>, <<1154, -1>>, <<254, -1>>, <<1, 1>>, <<445, -1>>, <<6, 0>>, <<-553, -1>>, <<6, 0>>, <<9305, -1>>>>, mats |-> <<<<"N_BK7", <<9, 99>>>>, <<"N_SF8", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_150_B_ML", lib |-> "thorlabs", label |-> "AC254-150-B-ML", p |-> <<<<15, 1>>, <<1446, -1>>, <<254, -1>>, <<65, -1>>, <<836, -1>>, <<4, 0>>, <<-8933, -2>>, <<35, -1>>, <<-13305, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_200_B_ML", lib |-> "thorlabs", label |-> "AC254-200-B-ML", p |-> <<<<2, 2>>, <<1948, -1>>, <<254, -1>>, <<73, -1>>, <<1064, -1>>, <<4, 0>>, <<-966, -1>>, <<4, 0>>, <<2, 3>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_250_B_ML", lib |-> "thorlabs", label |-> "AC254-250-B-ML", p |-> <<<<25, 1>>, <<2375, -1>>, <<254, -1>>, <<47, -1>>, <<52, 0>>, <<4, 0>>, <<-6531, -2>>, <<15, -1>>, <<11151, -2>>>>, mats |-> <<<<"SF5", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_300_B_ML", lib |-> "thorlabs", label |-> "AC254-300-B-ML", p |-> <<<<3, 2>>, <<29, 1>>, <<254, -1>>, <<53, -1>>, <<624, -1>>, <<4, 0>>, <<-774, -1>>, <<2, 0>>, <<134, 0>>>>, mats |-> <<<<"SF5", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_400_B_ML", lib |-> "thorlabs", label |-> "AC254-400-B-ML", p |-> <<<<4, 2>>, <<3911, -1>>, <<254, -1>>, <<48, -1>>, <<836, -1>>, <<35, -1>>, <<-10641, -2>>, <<18, -1>>, <<18155, -2>>>>, mats |-> <<<<"SF5", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_500_B_ML", lib |-> "thorlabs", label |-> "AC254-500-B-ML", p |-> <<<<5, 2>>, <<4808, -1>>, <<254, -1>>, <<56, -1>>, <<606, -1>>, <<4, 0>>, <<-6275, -2>>, <<2, 0>>, <<8757, -2>>>>, mats |-> <<<<"N_SF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_075_B_ML", lib |-> "thorlabs", label |-> "AC508-075-B-ML", p |-> <<<<75, 0>>, <<657, -1>>, <<508, -1>>, <<92, -1>>, <<518, -1>>, <<12, 0>>, <<-931, -1>>, <<5, 0>>, <<-2911, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_080_B_ML", lib |-> "thorlabs", label |-> "AC508-080-B-ML", p |-> <<<<8, 1>>, <<695, -1>>, <<508, -1>>, <<103, -1>>, <<518, -1>>, <<16, 0>>, <<-446, -1>>, <<2, 0>>, <<-3126, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_100_B_ML", lib |-> "thorlabs", label |-> "AC508-100-B-ML", p |-> <<<<1, 2>>, <<915, -1>>, <<508, -1>>, <<87, -1>>, <<658, -1>>, <<13, 0>>, <<-56, 0>>, <<2, 0>>, <<-2806, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_150_B_ML", lib |-> "thorlabs", label |-> "AC508-150-B-ML", p |-> <<<<15, 1>>, <<1453, -1>>, <<508, -1>>, <<93, -1>>, <<1122, -1>>, <<82, -1>>, <<-959, -1>>, <<5, 0>>, <<-3251, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_200_B_ML", lib |-> "thorlabs", label |-> "ACT508-200-B-ML", p |-> <<<<2, 2>>, <<1932, -1>>, <<508, -1>>, <<98, -1>>, <<121, 0>>, <<82, -1>>, <<-1187, -1>>, <<5, 0>>, <<-4224, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF57", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_250_B_ML", lib |-> "thorlabs", label |-> "ACT508-250-B-ML", p |-> <<<<25, 1>>, <<2418, -1>>, <<508, -1>>, <<114, -1>>, <<1377, -1>>, <<81, -1>>, <<-1377, -1>>, <<6, 0>>, <<-9304, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF11", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_300_B_ML", lib |-> "thorlabs", label |-> "ACT508-300-B-ML", p |-> <<<<3, 2>>, <<2914, -1>>, <<508, -1>>, <<118, -1>>, <<1581, -1>>, <<8, 0>>, <<-1711, -1>>, <<6, 0>>, <<-15299, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF11", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_400_B_ML", lib |-> "thorlabs", label |-> "ACT508-400-B-ML", p |-> <<<<4, 2>>, <<3895, -1>>, <<508, -1>>, <<125, -1>>, <<1898, -1>>, <<8, 0>>, <<-1528, -1>>, <<6, 0>>, <<22909, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_500_B_ML", lib |-> "thorlabs", label |-> "ACT508-500-B-ML", p |-> <<<<5, 2>>, <<4911, -1>>, <<508, -1>>, <<108, -1>>, <<2338, -1>>, <<6, 0>>, <<-1928, -1>>, <<6, 0>>, <<24711, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_750_B_ML", lib |-> "thorlabs", label |-> "ACT508-750-B-ML", p |-> <<<<75, 1>>, <<7424, -1>>, <<508, -1>>, <<102, -1>>, <<3867, -1>>, <<6, 0>>, <<-2696, -1>>, <<5, 0>>, <<9, 99>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_1000_B_ML", lib |-> "thorlabs", label |-> "ACT508-1000-B-ML", p |-> <<<<1, 3>>, <<9911, -1>>, <<508, -1>>, <<114, -1>>, <<4652, -1>>, <<6, 0>>, <<-3887, -1>>, <<6, 0>>, <<47262, -1>>>>, mats |-> <<<<"N_SK2", <<9, 99>>>>, <<"N_SF5", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_008_C_ML", lib |-> "thorlabs", label |-> "AC050-008-C-ML", p |-> <<<<75, -1>>, <<52, -1>>, <<5, 0>>, <<31, -1>>, <<46, -1>>, <<25, -1>>, <<-39, -1>>, <<15, -1>>, <<-239, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_010_C_ML", lib |-> "thorlabs", label |-> "AC050-010-C-ML", p |-> <<<<1, 1>>, <<69, -1>>, <<5, 0>>, <<33, -1>>, <<46, -1>>, <<25, -1>>, <<-46, -1>>, <<15, -1>>, <<36, 0>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC050_015_C_ML", lib |-> "thorlabs", label |-> "AC050-015-C-ML", p |-> <<<<15, 0>>, <<116, -1>>, <<5, 0>>, <<29, -1>>, <<53, -1>>, <<2, 0>>, <<-55, -1>>, <<13, -1>>, <<152, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC060_010_C_ML", lib |-> "thorlabs", label |-> "AC060-010-C-ML", p |-> <<<<1, 1>>, <<85, -1>>, <<6, 0>>, <<39, -1>>, <<104, -1>>, <<35, -1>>, <<-36, -1>>, <<13, -1>>, <<-92, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_013_C_ML", lib |-> "thorlabs", label |-> "AC064-013-C-ML", p |-> <<<<127, -1>>, <<114, -1>>, <<635, -2>>, <<33, -1>>, <<132, -1>>, <<28, -1>>, <<-49, -1>>, <<13, -1>>, <<-124, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC064_015_C_ML", lib |-> "thorlabs", label |-> "AC064-015-C-ML", p |-> <<<<15, 0>>, <<144, -1>>, <<635, -2>>, <<29, -1>>, <<227, -1>>, <<23, -1>>, <<-49, -1>>, <<13, -1>>, <<-113, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_010_C_ML", lib |-> "thorlabs", label |-> "AC080-010-C-ML", p |-> <<<<1, 1>>, <<72, -1>>, <<8, 0>>, <<39, -1>>, <<71, -1>>, <<42, -1>>, <<-49, -1>>, <<13, -1>>, <<-2, 1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_016_C_ML", lib |-> "thorlabs", label |-> "AC080-016-C-ML", p |-> <<<<16, 0>>, <<123, -1>>, <<8, 0>>, <<38, -1>>, <<75, -1>>, <<35, -1>>, <<-78, -1>>, <<13, -1>>, <<685, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_020_C_ML", lib |-> "thorlabs", label |-> "AC080-020-C-ML", p |-> <<<<2, 1>>, <<157, -1>>, <<8, 0>>, <<37, -1>>, <<78, -1>>, <<33, -1>>, <<-86, -1>>, <<13, -1>>, <<319, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC080_030_C_ML", lib |-> "thorlabs", label |-> "AC080-030-C-ML", p |-> <<<<3, 1>>, <<273, -1>>, <<8, 0>>, <<37, -1>>, <<123, -1>>, <<23, -1>>, <<-16, 0>>, <<23, -1>>, <<-704, -1>>>>, mats |-> <<<<"N_PK52A", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_019_C_ML", lib |-> "thorlabs", label |-> "AC127-019-C-ML", p |-> <<<<19, 0>>, <<154, -1>>, <<127, -1>>, <<43, -1>>, <<124, -1>>, <<5, 0>>, <<-1, 1>>, <<15, -1>>, <<-488, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_025_C_ML", lib |-> "thorlabs", label |-> "AC127-025-C-ML", p |-> <<<<25, 0>>, <<203, -1>>, <<127, -1>>, <<45, -1>>, <<12, 0>>, <<47, -1>>, <<-129, -1>>, <<15, -1>>, <<1517, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_030_C_ML", lib |-> "thorlabs", label |-> "AC127-030-C-ML", p |-> <<<<3, 1>>, <<245, -1>>, <<127, -1>>, <<48, -1>>, <<124, -1>>, <<47, -1>>, <<-14, 0>>, <<15, -1>>, <<653, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_050_C_ML", lib |-> "thorlabs", label |-> "AC127-050-C-ML", p |-> <<<<5, 1>>, <<435, -1>>, <<127, -1>>, <<46, -1>>, <<16, 0>>, <<4, 0>>, <<-184, -1>>, <<15, -1>>, <<446, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC127_075_C_ML", lib |-> "thorlabs", label |-> "AC127-075-C-ML", p |-> <<<<75, 0>>, <<698, -1>>, <<127, -1>>, <<39, -1>>, <<232, -1>>, <<3, 0>>, <<-279, -1>>, <<15, -1>>, <<667, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_030_C_ML", lib |-> "thorlabs", label |-> "AC254-030-C-ML", p |-> <<<<3, 1>>, <<222, -1>>, <<254, -1>>, <<94, -1>>, <<211, -1>>, <<13, 0>>, <<-152, -1>>, <<18, -1>>, <<-711, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_035_C_ML", lib |-> "thorlabs", label |-> "AC254-035-C-ML", p |-> <<<<35, 0>>, <<274, -1>>, <<254, -1>>, <<87, -1>>, <<232, -1>>, <<115, -1>>, <<-179, -1>>, <<18, -1>>, <<-1052, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_040_C_ML", lib |-> "thorlabs", label |-> "AC254-040-C-ML", p |-> <<<<4, 1>>, <<328, -1>>, <<254, -1>>, <<77, -1>>, <<244, -1>>, <<1, 1>>, <<-211, -1>>, <<18, -1>>, <<-1439, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_045_C_ML", lib |-> "thorlabs", label |-> "AC254-045-C-ML", p |-> <<<<45, 0>>, <<367, -1>>, <<254, -1>>, <<77, -1>>, <<229, -1>>, <<96, -1>>, <<-237, -1>>, <<18, -1>>, <<9, 2>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_050_C_ML", lib |-> "thorlabs", label |-> "AC254-050-C-ML", p |-> <<<<5, 1>>, <<412, -1>>, <<254, -1>>, <<74, -1>>, <<229, -1>>, <<9, 0>>, <<-259, -1>>, <<18, -1>>, <<1945, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_060_C_ML", lib |-> "thorlabs", label |-> "AC254-060-C-ML", p |-> <<<<6, 1>>, <<505, -1>>, <<254, -1>>, <<72, -1>>, <<239, -1>>, <<83, -1>>, <<-281, -1>>, <<18, -1>>, <<1121, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_075_C_ML", lib |-> "thorlabs", label |-> "AC254-075-C-ML", p |-> <<<<75, 0>>, <<649, -1>>, <<254, -1>>, <<71, -1>>, <<264, -1>>, <<76, -1>>, <<-294, -1>>, <<18, -1>>, <<849, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_100_C_ML", lib |-> "thorlabs", label |-> "AC254-100-C-ML", p |-> <<<<1, 2>>, <<903, -1>>, <<254, -1>>, <<66, -1>>, <<321, -1>>, <<65, -1>>, <<-38, 0>>, <<18, -1>>, <<935, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_150_C_ML", lib |-> "thorlabs", label |-> "AC254-150-C-ML", p |-> <<<<15, 1>>, <<1408, -1>>, <<254, -1>>, <<63, -1>>, <<427, -1>>, <<5, 0>>, <<-52, 0>>, <<25, -1>>, <<1115, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_200_C_ML", lib |-> "thorlabs", label |-> "AC254-200-C-ML", p |-> <<<<2, 2>>, <<1931, -1>>, <<254, -1>>, <<61, -1>>, <<7, 1>>, <<4, 0>>, <<-959, -1>>, <<3, 0>>, <<2743, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_250_C_ML", lib |-> "thorlabs", label |-> "AC254-250-C-ML", p |-> <<<<25, 1>>, <<2352, -1>>, <<254, -1>>, <<6, 0>>, <<44, 0>>, <<45, -1>>, <<-577, -1>>, <<25, -1>>, <<931, -1>>>>, mats |-> <<<<"SF2", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_300_C_ML", lib |-> "thorlabs", label |-> "AC254-300-C-ML", p |-> <<<<3, 2>>, <<2858, -1>>, <<254, -1>>, <<62, -1>>, <<525, -1>>, <<45, -1>>, <<-685, -1>>, <<25, -1>>, <<1122, -1>>>>, mats |-> <<<<"SF2", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_400_C_ML", lib |-> "thorlabs", label |-> "AC254-400-C-ML", p |-> <<<<4, 2>>, <<3868, -1>>, <<254, -1>>, <<61, -1>>, <<7, 1>>, <<42, -1>>, <<-931, -1>>, <<25, -1>>, <<1514, -1>>>>, mats |-> <<<<"SF2", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC254_500_C_ML", lib |-> "thorlabs", label |-> "AC254-500-C-ML", p |-> <<<<5, 2>>, <<4867, -1>>, <<254, -1>>, <<5, 0>>, <<879, -1>>, <<35, -1>>, <<-1155, -1>>, <<2, 0>>, <<1945, -1>>>>, mats |-> <<<<"SF2", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_075_C_ML", lib |-> "thorlabs", label |-> "AC508-075-C-ML", p |-> <<<<75, 0>>, <<63, 0>>, <<508, -1>>, <<131, -1>>, <<499, -1>>, <<19, 0>>, <<-391, -1>>, <<25, -1>>, <<-2307, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_080_C_ML", lib |-> "thorlabs", label |-> "AC508-080-C-ML", p |-> <<<<8, 1>>, <<669, -1>>, <<508, -1>>, <<126, -1>>, <<472, -1>>, <<18, 0>>, <<-432, -1>>, <<25, -1>>, <<-6407, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_100_C_ML", lib |-> "thorlabs", label |-> "AC508-100-C-ML", p |-> <<<<1, 2>>, <<83, 0>>, <<508, -1>>, <<128, -1>>, <<447, -1>>, <<17, 0>>, <<-483, -1>>, <<25, -1>>, <<2594, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_150_C_ML", lib |-> "thorlabs", label |-> "AC508-150-C-ML", p |-> <<<<15, 1>>, <<1177, -1>>, <<508, -1>>, <<177, -1>>, <<395, -1>>, <<18, 0>>, <<-499, -1>>, <<5, 0>>, <<836, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_200_C_ML", lib |-> "thorlabs", label |-> "AC508-200-C-ML", p |-> <<<<2, 2>>, <<1827, -1>>, <<508, -1>>, <<114, -1>>, <<671, -1>>, <<12, 0>>, <<-876, -1>>, <<3, 0>>, <<2343, -1>>>>, mats |-> <<<<"N_LAK22", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_250_C_ML", lib |-> "thorlabs", label |-> "ACT508-250-C-ML", p |-> <<<<25, 1>>, <<2357, -1>>, <<508, -1>>, <<128, -1>>, <<1047, -1>>, <<1, 1>>, <<-1101, -1>>, <<5, 0>>, <<3495, -1>>>>, mats |-> <<<<"H_LAF3B", <<9, 99>>>>, <<"H_ZF52GT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_300_C_ML", lib |-> "thorlabs", label |-> "ACT508-300-C-ML", p |-> <<<<3, 2>>, <<2908, -1>>, <<508, -1>>, <<134, -1>>, <<1997, -1>>, <<1, 1>>, <<-914, -1>>, <<5, 0>>, <<9, 99>>>>, mats |-> <<<<"H_LAF3B", <<9, 99>>>>, <<"H_ZF13", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "ACT508_400_C_ML", lib |-> "thorlabs", label |-> "ACT508-400-C-ML", p |-> <<<<4, 2>>, <<3897, -1>>, <<508, -1>>, <<146, -1>>, <<2287, -1>>, <<1, 1>>, <<-649, -1>>, <<6, 0>>, <<9, 99>>>>, mats |-> <<<<"H_ZK50", <<9, 99>>>>, <<"H_F4", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_500_C_ML", lib |-> "thorlabs", label |-> "AC508-500-C-ML", p |-> <<<<5, 2>>, <<4743, -1>>, <<508, -1>>, <<99, -1>>, <<861, -1>>, <<88, -1>>, <<-1032, -1>>, <<3, 0>>, <<166, 0>>>>, mats |-> <<<<"SF5", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "AC508_1000_C_ML", lib |-> "thorlabs", label |-> "AC508-1000-C-ML", p |-> <<<<1, 3>>, <<9903, -1>>, <<508, -1>>, <<81, -1>>, <<173, 0>>, <<6, 0>>, <<-2343, -1>>, <<3, 0>>, <<336, 0>>>>, mats |-> <<<<"SF5", <<9, 99>>>>, <<"N_SF6HT", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "PN_33_921", lib |-> "eo", label |-> "EO #33-921", p |-> <<<<1, 2>>, <<7832, -2>>, <<75, 0>>, <<2466, -2>>, <<6467, -2>>, <<26, 0>>, <<-6467, -2>>, <<127, -1>>, <<-34359, -2>>>>, mats |-> <<<<"", <<167, -2>>>>, <<"", <<18467, -4>>>>>>, w |-> <<9, 99>>],
  [k |-> "doublet", name |-> "PN_33_922", lib |-> "eo", label |-> "EO #33-922", p |-> <<<<15, 1>>, <<12646, -2>>, <<75, 0>>, <<3601, -2>>, <<9205, -2>>, <<232, -1>>, <<-7285, -2>>, <<231, -1>>, <<-30587, -2>>>>, mats |-> <<<<"N_BAK1", <<9, 99>>>>, <<"N_SF8", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "doublet", name |-> "PN_88_593", lib |-> "eo", label |-> "EO #88-593", p |-> <<<<2, 2>>, <<18769, -2>>, <<75, 0>>, <<1542, -2>>, <<11881, -2>>, <<1794, -2>>, <<-9637, -2>>, <<6, 0>>, <<-28897, -2>>>>, mats |-> <<<<"", <<15168, -4>>>>, <<"", <<16727, -4>>>>>>, w |-> <<9, 99>>],
  [k |-> "doublet", name |-> "PN_85_877", lib |-> "eo", label |-> "EO #85-877", p |-> <<<<-1, 1>>, <<-1192, -2>>, <<625, -2>>, <<42, -1>>, <<-655, -2>>, <<1, 0>>, <<51, -1>>, <<25, -1>>, <<891, -1>>>>, mats |-> <<<<"N_BAF10", <<9, 99>>>>, <<"N_SF10", <<9, 99>>>>>>, w |-> <<5876, -4>>],
  [k |-> "objective", name |-> "LUMPlanFL40X", lib |-> "olympus", label |-> "LUMPlanFL40X", p |-> <<<<45, -1>>, <<8, -1>>, <<4, 1>>, <<7, 0>>, <<2, 0>>, <<4, 1>>, <<265, -1>>>>, mats |-> <<>>, w |-> <<9, 99>>],
  [k |-> "objective", name |-> "XLUMPlanFLN20X", lib |-> "olympus", label |-> "XLUMPlanFLN20X", p |-> <<<<9, 0>>, <<1, 0>>, <<8, 1>>, <<22, 0>>, <<2, 0>>, <<2, 1>>, <<22, 0>>>>, mats |-> <<>>, w |-> <<9, 99>>],
  [k |-> "objective", name |-> "MVPlapo2XC", lib |-> "olympus", label |-> "MVPlapo2XC", p |-> <<<<45, 0>>, <<5, -1>>, <<137, 0>>, <<45, 0>>, <<2, 1>>, <<2, 0>>, <<176, -1>>>>, mats |-> <<>>, w |-> <<9, 99>>],
  [k |-> "objective", name |-> "UMPLFN20XW", lib |-> "olympus", label |-> "UMPLFN20XW", p |-> <<<<9, 0>>, <<5, -1>>, <<45, 0>>, <<9, 0>>, <<35, -1>>, <<2, 1>>, <<265, -1>>>>, mats |-> <<>>, w |-> <<9, 99>>],
  [k |-> "objective", name |-> "XLPLN25X", lib |-> "olympus", label |-> "XLPLN25X", p |-> <<<<72, -1>>, <<105, -2>>, <<75, 0>>, <<18, 0>>, <<2, 0>>, <<25, 0>>, <<18, 0>>>>, mats |-> <<>>, w |-> <<9, 99>>],
  [k |-> "objective", name |-> "LWD16X", lib |-> "nikon", label |-> "CFI75 LWD 16x W", p |-> <<<<125, -1>>, <<156, -2>>, <<75, 0>>, <<2, 1>>, <<3, 0>>, <<9, 99>>, <<9, 99>>>>, mats |-> <<>>, w |-> <<9, 99>>]
>>
=============================================================================
