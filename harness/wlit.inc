L(.0, 0u, 0u)
L(.5, 32768u, 32768u)
L(0, 0u, 0u)
L(0., 0u, 0u)
L(0.0, 0u, 0u)
L(0.000, 0u, 0u)
L(0.0000, 0u, 0u)
L(0.00000762939453121, 0u, 1u)
L(0.0000076293945312500, 0u, 1u)
L(0.000007629394531251, 0u, 1u)
L(0.00001, 1u, 1u)
L(0.000015, 1u, 1u)
L(0.0000152, 1u, 1u)
L(0.00001525, 1u, 1u)
L(0.000015258, 1u, 1u)
L(0.0000152587, 1u, 1u)
L(0.000015258789, 1u, 1u)
L(0.00001525878906, 1u, 1u)
L(0.000015258789062, 1u, 1u)
L(0.0000152587890625, 1u, 1u)
L(0.00001525878906250, 1u, 1u)
L(0.000015258789062500, 1u, 1u)
L(0.00001525878906250000, 1u, 1u)
L(0.00002288818359371, 1u, 2u)
L(0.000022888183593750, 1u, 2u)
L(0.00002288818359375000, 1u, 2u)
L(0.000022888183593751, 1u, 2u)
L(0.00003, 2u, 2u)
L(0.000030, 2u, 2u)
L(0.0000305, 2u, 2u)
L(0.00003051, 2u, 2u)
L(0.000030517, 2u, 2u)
L(0.0000305175, 2u, 2u)
L(0.000030517578, 2u, 2u)
L(0.00003051757812, 2u, 2u)
L(0.000030517578125, 2u, 2u)
L(0.0000305175781250, 2u, 2u)
L(0.00003051757812500, 2u, 2u)
L(0.000030517578125000, 2u, 2u)
L(0.00003051757812500000, 2u, 2u)
L(0.00003814697265621, 2u, 3u)
L(0.000038146972656250, 2u, 3u)
L(0.00003814697265625000, 2u, 3u)
L(0.000038146972656251, 2u, 3u)
L(0.00004, 3u, 3u)
L(0.000045, 3u, 3u)
L(0.0000457, 3u, 3u)
L(0.00004577, 3u, 3u)
L(0.000045776, 3u, 3u)
L(0.0000457763, 3u, 3u)
L(0.000045776367, 3u, 3u)
L(0.00004577636718, 3u, 3u)
L(0.000045776367187, 3u, 3u)
L(0.0000457763671875, 3u, 3u)
L(0.00004577636718750, 3u, 3u)
L(0.000045776367187500, 3u, 3u)
L(0.00004577636718750000, 3u, 3u)
L(0.00005340576171871, 3u, 4u)
L(0.00005340576171875000, 3u, 4u)
L(0.000053405761718751, 3u, 4u)
L(0.002508758, 164u, 164u)
L(0.0161472486437574, 1058u, 1058u)
L(0.0390, 2556u, 2556u)
L(0.06286, 4120u, 4120u)
L(0.069000219536753863, 4522u, 4522u)
L(0.0803111346, 5263u, 5263u)
L(0.085, 5571u, 5571u)
L(0.09007146805686426295, 5903u, 5903u)
L(0.0924750612, 6060u, 6060u)
L(0.1, 6554u, 6554u)
L(0.10697040, 7010u, 7010u)
L(0.107160368601730, 7023u, 7023u)
L(0.12013551863338071764, 7873u, 7873u)
L(0.122455, 8025u, 8025u)
L(0.12583742452471532, 8247u, 8247u)
L(0.1391300, 9118u, 9118u)
L(0.14407877, 9442u, 9442u)
L(0.16080450260, 10538u, 10538u)
L(0.1779, 11659u, 11659u)
L(0.19870, 13022u, 13022u)
L(0.206984301817778138659, 13565u, 13565u)
L(0.2112586854997325563, 13845u, 13845u)
L(0.214321380373413921, 14046u, 14046u)
L(0.21725261, 14238u, 14238u)
L(0.225130103005, 14754u, 14754u)
L(0.228231452624477706, 14957u, 14957u)
L(0.2287885135681135743, 14994u, 14994u)
L(0.2298500304445740956, 15063u, 15063u)
L(0.242543584, 15895u, 15895u)
L(0.24721898, 16202u, 16202u)
L(0.249156732, 16329u, 16329u)
L(0.25, 16384u, 16384u)
L(0.2556574974335045567, 16755u, 16755u)
L(0.26442, 17329u, 17329u)
L(0.282, 18481u, 18481u)
L(0.284993373, 18677u, 18677u)
L(0.28867426778, 18919u, 18919u)
L(0.3, 19661u, 19661u)
L(0.32962441602, 21602u, 21602u)
L(0.33, 21627u, 21627u)
L(0.333, 21823u, 21823u)
L(0.3333, 21843u, 21843u)
L(0.33333, 21845u, 21845u)
L(0.333333, 21845u, 21845u)
L(0.3333333, 21845u, 21845u)
L(0.33333333, 21845u, 21845u)
L(0.333333333, 21845u, 21845u)
L(0.3333333333, 21845u, 21845u)
L(0.33333333333, 21845u, 21845u)
L(0.333333333333, 21845u, 21845u)
L(0.3333333333333, 21845u, 21845u)
L(0.33333333333333, 21845u, 21845u)
L(0.333333333333333, 21845u, 21845u)
L(0.3333333333333333, 21845u, 21845u)
L(0.33333333333333333, 21845u, 21845u)
L(0.333333333333333333, 21845u, 21845u)
L(0.3333333333333333333, 21845u, 21845u)
L(0.33333333333333333333, 21845u, 21845u)
L(0.333333333333333333333, 21845u, 21845u)
L(0.3333333333333333333333, 21845u, 21845u)
L(0.33333333333333333333333, 21845u, 21845u)
L(0.333333333333333333333333, 21845u, 21845u)
L(0.33334397761512984241, 21846u, 21846u)
L(0.33596, 22017u, 22017u)
L(0.3500816297, 22943u, 22943u)
L(0.36648747, 24018u, 24018u)
L(0.369242954490, 24199u, 24199u)
L(0.37059276970, 24287u, 24287u)
L(0.400205209974942, 26228u, 26228u)
L(0.40802, 26740u, 26740u)
L(0.40980, 26857u, 26857u)
L(0.435753233968989, 28558u, 28558u)
L(0.44102, 28903u, 28903u)
L(0.4469222888, 29289u, 29289u)
L(0.4544310652, 29782u, 29782u)
L(0.4698915481950, 30795u, 30795u)
L(0.47186986, 30924u, 30924u)
L(0.48815, 31991u, 31991u)
L(0.4937739070375691911, 32360u, 32360u)
L(0.499, 32702u, 32702u)
L(0.4999, 32761u, 32761u)
L(0.49997711181640621, 32766u, 32767u)
L(0.49997711181640625, 32766u, 32767u)
L(0.499977111816406251, 32766u, 32767u)
L(0.49998, 32767u, 32767u)
L(0.499984, 32767u, 32767u)
L(0.4999847, 32767u, 32767u)
L(0.49998474, 32767u, 32767u)
L(0.499984741, 32767u, 32767u)
L(0.4999847412, 32767u, 32767u)
L(0.499984741210, 32767u, 32767u)
L(0.49998474121093, 32767u, 32767u)
L(0.499984741210937, 32767u, 32767u)
L(0.4999847412109375, 32767u, 32767u)
L(0.49998474121093750, 32767u, 32767u)
L(0.499984741210937500, 32767u, 32767u)
L(0.49998474121093750000, 32767u, 32767u)
L(0.49999237060546871, 32767u, 32768u)
L(0.499992370605468750, 32767u, 32768u)
L(0.49999237060546875000, 32767u, 32768u)
L(0.499992370605468751, 32767u, 32768u)
L(0.5, 32768u, 32768u)
L(0.500, 32768u, 32768u)
L(0.5000, 32768u, 32768u)
L(0.50000, 32768u, 32768u)
L(0.500000, 32768u, 32768u)
L(0.5000000, 32768u, 32768u)
L(0.50000000, 32768u, 32768u)
L(0.500000000, 32768u, 32768u)
L(0.5000000000, 32768u, 32768u)
L(0.500000000000, 32768u, 32768u)
L(0.50000000000000, 32768u, 32768u)
L(0.500000000000000, 32768u, 32768u)
L(0.5000000000000000, 32768u, 32768u)
L(0.50000000000000000, 32768u, 32768u)
L(0.500000000000000000, 32768u, 32768u)
L(0.50000000000000000000, 32768u, 32768u)
L(0.50000762939453121, 32768u, 32769u)
L(0.500007629394531250, 32768u, 32769u)
L(0.50000762939453125000, 32768u, 32769u)
L(0.500007629394531251, 32768u, 32769u)
L(0.50001, 32769u, 32769u)
L(0.500015, 32769u, 32769u)
L(0.5000152, 32769u, 32769u)
L(0.50001525, 32769u, 32769u)
L(0.500015258, 32769u, 32769u)
L(0.5000152587, 32769u, 32769u)
L(0.500015258789, 32769u, 32769u)
L(0.50001525878906, 32769u, 32769u)
L(0.500015258789062, 32769u, 32769u)
L(0.5000152587890625, 32769u, 32769u)
L(0.50001525878906250, 32769u, 32769u)
L(0.500015258789062500, 32769u, 32769u)
L(0.50001525878906250000, 32769u, 32769u)
L(0.50002288818359371, 32769u, 32770u)
L(0.50002288818359375, 32769u, 32770u)
L(0.500022888183593751, 32769u, 32770u)
L(0.50601592137, 33162u, 33162u)
L(0.506184317560627, 33173u, 33173u)
L(0.5143758926628036686, 33710u, 33710u)
L(0.52580573777331, 34459u, 34459u)
L(0.53, 34734u, 34734u)
L(0.5350441319674, 35065u, 35065u)
L(0.54034004892385790155, 35412u, 35412u)
L(0.566941620728388, 37155u, 37155u)
L(0.56935430908187215379, 37313u, 37313u)
L(0.5766340717989495, 37790u, 37790u)
L(0.578, 37880u, 37880u)
L(0.59368999876492629, 38908u, 38908u)
L(0.59879598435, 39243u, 39243u)
L(0.61027031019, 39995u, 39995u)
L(0.633224459965, 41499u, 41499u)
L(0.63706392, 41751u, 41751u)
L(0.6396780874, 41922u, 41922u)
L(0.64827640264181524, 42485u, 42485u)
L(0.6739964525563833, 44171u, 44171u)
L(0.680, 44564u, 44564u)
L(0.68316089711616, 44772u, 44772u)
L(0.68828166504611163, 45107u, 45107u)
L(0.7, 45875u, 45875u)
L(0.7012157, 45955u, 45955u)
L(0.7059119785528, 46263u, 46263u)
L(0.720791737, 47238u, 47238u)
L(0.724908968764777499, 47508u, 47508u)
L(0.73691147070333560769, 48294u, 48294u)
L(0.743473452228, 48724u, 48724u)
L(0.7438853218297673, 48751u, 48751u)
L(0.75902157131108270, 49743u, 49743u)
L(0.76081773711113, 49861u, 49861u)
L(0.7770530185186, 50925u, 50925u)
L(0.7858101642909332002, 51499u, 51499u)
L(0.78880563890, 51695u, 51695u)
L(0.795237401073038, 52117u, 52117u)
L(0.80207996542920531813, 52565u, 52565u)
L(0.807991311, 52953u, 52953u)
L(0.81, 53084u, 53084u)
L(0.8103566111, 53108u, 53108u)
L(0.81731748, 53564u, 53564u)
L(0.8189, 53667u, 53667u)
L(0.829120586, 54337u, 54337u)
L(0.8692194032753544066, 56965u, 56965u)
L(0.87036508460647266, 57040u, 57040u)
L(0.89999885700517169196, 58982u, 58982u)
L(0.9, 58982u, 58982u)
L(0.900, 58982u, 58982u)
L(0.9136011771144841, 59874u, 59874u)
L(0.9179840614525519, 60161u, 60161u)
L(0.92046490326768870212, 60324u, 60324u)
L(0.9376471686350038, 61450u, 61450u)
L(0.94, 61604u, 61604u)
L(0.942483793248060470, 61767u, 61767u)
L(0.94325108748459, 61817u, 61817u)
L(0.9498871057285715495, 62252u, 62252u)
L(0.95246326548, 62421u, 62421u)
L(0.9528235716, 62444u, 62444u)
L(0.965638380, 63284u, 63284u)
L(0.99, 64881u, 64881u)
L(0.999, 65470u, 65470u)
L(0.9993063070409075, 65491u, 65491u)
L(0.9999, 65529u, 65529u)
L(0.99996, 65533u, 65533u)
L(0.99996185, 65533u, 65533u)
L(0.99996185302734371, 65533u, 65534u)
L(0.999961853027343751, 65533u, 65534u)
L(0.999969, 65534u, 65534u)
L(0.9999694, 65534u, 65534u)
L(0.99996948, 65534u, 65534u)
L(0.999969482, 65534u, 65534u)
L(0.9999694824, 65534u, 65534u)
L(0.999969482421, 65534u, 65534u)
L(0.99996948242187, 65534u, 65534u)
L(0.999969482421875, 65534u, 65534u)
L(0.9999694824218750, 65534u, 65534u)
L(0.99996948242187500, 65534u, 65534u)
L(0.999969482421875000, 65534u, 65534u)
L(0.99996948242187500000, 65534u, 65534u)
L(0.99997711181640621, 65534u, 65535u)
L(0.9999771118164062500, 65534u, 65535u)
L(0.999977111816406251, 65534u, 65535u)
L(0.99998, 65535u, 65535u)
L(0.999984, 65535u, 65535u)
L(0.9999847, 65535u, 65535u)
L(0.99998474, 65535u, 65535u)
L(0.999984741, 65535u, 65535u)
L(0.9999847412, 65535u, 65535u)
L(0.999984741210, 65535u, 65535u)
L(0.99998474121093, 65535u, 65535u)
L(0.999984741210937, 65535u, 65535u)
L(0.9999847412109375, 65535u, 65535u)
L(0.99998474121093750, 65535u, 65535u)
L(0.999984741210937500, 65535u, 65535u)
L(0.99998474121093750000, 65535u, 65535u)
L(0.99999, 65535u, 65535u)
L(0.99999237060546871, 65535u, 65536u)
L(0.9999923706054687500, 65535u, 65536u)
L(0.999992370605468751, 65535u, 65536u)
L(0.999999, 65536u, 65536u)
L(0.9999999, 65536u, 65536u)
L(0.99999999, 65536u, 65536u)
L(0.999999999, 65536u, 65536u)
L(0.9999999999, 65536u, 65536u)
L(0.99999999999, 65536u, 65536u)
L(0.999999999999, 65536u, 65536u)
L(0.9999999999999, 65536u, 65536u)
L(0.99999999999999, 65536u, 65536u)
L(0.999999999999999, 65536u, 65536u)
L(0.9999999999999999, 65536u, 65536u)
L(0.99999999999999999, 65536u, 65536u)
L(0.999999999999999999, 65536u, 65536u)
L(0.9999999999999999999, 65536u, 65536u)
L(0.99999999999999999999, 65536u, 65536u)
L(0.999999999999999999999, 65536u, 65536u)
L(0.9999999999999999999999, 65536u, 65536u)
L(0.99999999999999999999999, 65536u, 65536u)
L(0.999999999999999999999999, 65536u, 65536u)
L(000.125, 8192u, 8192u)
L(00032767.0000, 2147418112u, 2147418112u)
L(1, 65536u, 65536u)
L(1., 65536u, 65536u)
L(1.0, 65536u, 65536u)
L(1.000, 65536u, 65536u)
L(1.0000, 65536u, 65536u)
L(1.00000762939453121, 65536u, 65537u)
L(1.00000762939453125000, 65536u, 65537u)
L(1.000007629394531251, 65536u, 65537u)
L(1.00001, 65537u, 65537u)
L(1.000015, 65537u, 65537u)
L(1.0000152, 65537u, 65537u)
L(1.00001525, 65537u, 65537u)
L(1.000015258, 65537u, 65537u)
L(1.0000152587, 65537u, 65537u)
L(1.000015258789, 65537u, 65537u)
L(1.00001525878906, 65537u, 65537u)
L(1.000015258789062, 65537u, 65537u)
L(1.0000152587890625, 65537u, 65537u)
L(1.00001525878906250, 65537u, 65537u)
L(1.000015258789062500, 65537u, 65537u)
L(1.00001525878906250000, 65537u, 65537u)
L(1.00002288, 65537u, 65537u)
L(1.00002288818359371, 65537u, 65538u)
L(1.00002288818359375, 65537u, 65538u)
L(1.000022888183593751, 65537u, 65538u)
L(1.00003, 65538u, 65538u)
L(1.000030, 65538u, 65538u)
L(1.0000305, 65538u, 65538u)
L(1.00003051, 65538u, 65538u)
L(1.000030517, 65538u, 65538u)
L(1.0000305175, 65538u, 65538u)
L(1.000030517578, 65538u, 65538u)
L(1.00003051757812, 65538u, 65538u)
L(1.000030517578125, 65538u, 65538u)
L(1.0000305175781250, 65538u, 65538u)
L(1.00003051757812500, 65538u, 65538u)
L(1.000030517578125000, 65538u, 65538u)
L(1.00003051757812500000, 65538u, 65538u)
L(1.00003814697265621, 65538u, 65539u)
L(1.00003814697265625, 65538u, 65539u)
L(1.00003814697265625000, 65538u, 65539u)
L(1.000038146972656251, 65538u, 65539u)
L(1.00004, 65539u, 65539u)
L(1.000045, 65539u, 65539u)
L(1.0000457, 65539u, 65539u)
L(1.00004577, 65539u, 65539u)
L(1.000045776, 65539u, 65539u)
L(1.0000457763, 65539u, 65539u)
L(1.000045776367, 65539u, 65539u)
L(1.00004577636718, 65539u, 65539u)
L(1.000045776367187, 65539u, 65539u)
L(1.0000457763671875, 65539u, 65539u)
L(1.00004577636718750, 65539u, 65539u)
L(1.000045776367187500, 65539u, 65539u)
L(1.00004577636718750000, 65539u, 65539u)
L(1.00005340576171871, 65539u, 65540u)
L(1.00005340576171875, 65539u, 65540u)
L(1.000053405761718751, 65539u, 65540u)
L(1.0311719782668, 67579u, 67579u)
L(1.0494, 68773u, 68773u)
L(1.059056252373856, 69406u, 69406u)
L(1.130771, 74106u, 74106u)
L(1.144, 74973u, 74973u)
L(1.15678707439, 75811u, 75811u)
L(1.1665, 76448u, 76448u)
L(1.2147864, 79612u, 79612u)
L(1.25, 81920u, 81920u)
L(1.26570047, 82949u, 82949u)
L(1.275296674, 83578u, 83578u)
L(1.290, 84541u, 84541u)
L(1.2969725313732992243, 84998u, 84998u)
L(1.326675382058, 86945u, 86945u)
L(1.3319032, 87288u, 87288u)
L(1.3326249322156872, 87335u, 87335u)
L(1.341628404752201605796, 87925u, 87925u)
L(1.36151814200, 89228u, 89228u)
L(1.416083077845, 92804u, 92804u)
L(1.4236529, 93301u, 93301u)
L(1.437507632867231, 94209u, 94209u)
L(1.46138317256688, 95773u, 95773u)
L(1.48559262203544, 97360u, 97360u)
L(1.4963834324827, 98067u, 98067u)
L(1.499, 98238u, 98238u)
L(1.4999, 98297u, 98297u)
L(1.49997711181640621, 98302u, 98303u)
L(1.4999771118164062500, 98302u, 98303u)
L(1.499977111816406251, 98302u, 98303u)
L(1.49998, 98303u, 98303u)
L(1.499984, 98303u, 98303u)
L(1.4999847, 98303u, 98303u)
L(1.49998474, 98303u, 98303u)
L(1.499984741, 98303u, 98303u)
L(1.4999847412, 98303u, 98303u)
L(1.499984741210, 98303u, 98303u)
L(1.49998474121093, 98303u, 98303u)
L(1.499984741210937, 98303u, 98303u)
L(1.4999847412109375, 98303u, 98303u)
L(1.49998474121093750, 98303u, 98303u)
L(1.499984741210937500, 98303u, 98303u)
L(1.49998474121093750000, 98303u, 98303u)
L(1.49999237, 98303u, 98303u)
L(1.49999237060546871, 98303u, 98304u)
L(1.499992370605468751, 98303u, 98304u)
L(1.5, 98304u, 98304u)
L(1.500, 98304u, 98304u)
L(1.5000, 98304u, 98304u)
L(1.50000, 98304u, 98304u)
L(1.500000, 98304u, 98304u)
L(1.5000000, 98304u, 98304u)
L(1.50000000, 98304u, 98304u)
L(1.500000000, 98304u, 98304u)
L(1.5000000000, 98304u, 98304u)
L(1.500000000000, 98304u, 98304u)
L(1.50000000000000, 98304u, 98304u)
L(1.500000000000000, 98304u, 98304u)
L(1.5000000000000000, 98304u, 98304u)
L(1.50000000000000000, 98304u, 98304u)
L(1.500000000000000000, 98304u, 98304u)
L(1.50000000000000000000, 98304u, 98304u)
L(1.50000762939453121, 98304u, 98305u)
L(1.500007629394531250, 98304u, 98305u)
L(1.5000076293945312500, 98304u, 98305u)
L(1.500007629394531251, 98304u, 98305u)
L(1.50001, 98305u, 98305u)
L(1.500015, 98305u, 98305u)
L(1.5000152, 98305u, 98305u)
L(1.50001525, 98305u, 98305u)
L(1.500015258, 98305u, 98305u)
L(1.5000152587, 98305u, 98305u)
L(1.500015258789, 98305u, 98305u)
L(1.50001525878906, 98305u, 98305u)
L(1.500015258789062, 98305u, 98305u)
L(1.5000152587890625, 98305u, 98305u)
L(1.50001525878906250, 98305u, 98305u)
L(1.500015258789062500, 98305u, 98305u)
L(1.50001525878906250000, 98305u, 98305u)
L(1.50002288, 98305u, 98305u)
L(1.50002288818359371, 98305u, 98306u)
L(1.500022888183593751, 98305u, 98306u)
L(1.5142, 99235u, 99235u)
L(1.522163013693305217410, 99756u, 99756u)
L(1.5332552461, 100483u, 100483u)
L(1.53464844856026331780, 100575u, 100575u)
L(1.5789573, 103479u, 103479u)
L(1.5931953, 104412u, 104412u)
L(1.6281703772, 106704u, 106704u)
L(1.6325793452622396656, 106993u, 106993u)
L(1.6352246394782, 107166u, 107166u)
L(1.656207, 108541u, 108541u)
L(1.657089925992874, 108599u, 108599u)
L(1.66723387963, 109264u, 109264u)
L(1.66754322941423094740, 109284u, 109284u)
L(1.71157546717201772986, 112170u, 112170u)
L(1.7318740516423124, 113500u, 113500u)
L(1.7475321407176951500, 114526u, 114526u)
L(1.75724438759, 115163u, 115163u)
L(1.7932591, 117523u, 117523u)
L(1.800184509, 117977u, 117977u)
L(1.8034, 118188u, 118188u)
L(1.8155467, 118984u, 118984u)
L(1.856745926, 121684u, 121684u)
L(1.862312023150, 122048u, 122048u)
L(1.865799510894, 122277u, 122277u)
L(1.87691, 123005u, 123005u)
L(1.878953, 123139u, 123139u)
L(1.896962461, 124319u, 124319u)
L(1.9, 124518u, 124518u)
L(1.9556955141292400, 128168u, 128168u)
L(1.999, 131006u, 131006u)
L(1.9999, 131065u, 131065u)
L(1.99996, 131069u, 131069u)
L(1.99996185302734371, 131069u, 131070u)
L(1.99996185302734375000, 131069u, 131070u)
L(1.999961853027343751, 131069u, 131070u)
L(1.999969, 131070u, 131070u)
L(1.9999694, 131070u, 131070u)
L(1.99996948, 131070u, 131070u)
L(1.999969482, 131070u, 131070u)
L(1.9999694824, 131070u, 131070u)
L(1.999969482421, 131070u, 131070u)
L(1.99996948242187, 131070u, 131070u)
L(1.999969482421875, 131070u, 131070u)
L(1.9999694824218750, 131070u, 131070u)
L(1.99996948242187500, 131070u, 131070u)
L(1.999969482421875000, 131070u, 131070u)
L(1.99996948242187500000, 131070u, 131070u)
L(1.99997711181640621, 131070u, 131071u)
L(1.99997711181640625, 131070u, 131071u)
L(1.999977111816406250, 131070u, 131071u)
L(1.999977111816406251, 131070u, 131071u)
L(1.99998, 131071u, 131071u)
L(1.999984, 131071u, 131071u)
L(1.9999847, 131071u, 131071u)
L(1.99998474, 131071u, 131071u)
L(1.999984741, 131071u, 131071u)
L(1.9999847412, 131071u, 131071u)
L(1.999984741210, 131071u, 131071u)
L(1.99998474121093, 131071u, 131071u)
L(1.999984741210937, 131071u, 131071u)
L(1.9999847412109375, 131071u, 131071u)
L(1.99998474121093750, 131071u, 131071u)
L(1.999984741210937500, 131071u, 131071u)
L(1.99998474121093750000, 131071u, 131071u)
L(1.99999237060546871, 131071u, 131072u)
L(1.9999923706054687500, 131071u, 131072u)
L(1.999992370605468751, 131071u, 131072u)
L(10, 655360u, 655360u)
L(10., 655360u, 655360u)
L(10.0, 655360u, 655360u)
L(10.25, 671744u, 671744u)
L(10.5, 688128u, 688128u)
L(1000, 65536000u, 65536000u)
L(1000., 65536000u, 65536000u)
L(1000.0, 65536000u, 65536000u)
L(1000.25, 65552384u, 65552384u)
L(1000.5, 65568768u, 65568768u)
L(10218.699, 669692658u, 669692658u)
L(10294.98875959, 674692383u, 674692383u)
L(10384.5951, 680564824u, 680564824u)
L(1107.063229656389236, 72552496u, 72552496u)
L(11985.506984087839235, 785482186u, 785482186u)
L(12.4444444444444444444444445, 815559u, 815559u)
L(12.444444444444444444444445, 815559u, 815559u)
L(12.44444444444444444444445, 815559u, 815559u)
L(12.4444444444444444444445, 815559u, 815559u)
L(12.444444444444444444445, 815559u, 815559u)
L(12.44444444444444444445, 815559u, 815559u)
L(12.4444444444444444445, 815559u, 815559u)
L(12.444444444444444445, 815559u, 815559u)
L(12.44444444444444445, 815559u, 815559u)
L(12.4444444444444445, 815559u, 815559u)
L(12.444444444444445, 815559u, 815559u)
L(12.44444444444445, 815559u, 815559u)
L(12.4444444444445, 815559u, 815559u)
L(12.444444444445, 815559u, 815559u)
L(12.44444444445, 815559u, 815559u)
L(12.4444444445, 815559u, 815559u)
L(12.444444445, 815559u, 815559u)
L(12.44444445, 815559u, 815559u)
L(12.4444445, 815559u, 815559u)
L(12.444445, 815559u, 815559u)
L(12.44445, 815559u, 815559u)
L(12.4445, 815563u, 815563u)
L(12.445, 815596u, 815596u)
L(12.45, 815923u, 815923u)
L(12320.7730575176117, 807454183u, 807454183u)
L(12708.428623818925700, 832859578u, 832859578u)
L(134.805, 8834580u, 8834580u)
L(1373.00775522111773246, 89981436u, 89981436u)
L(13993.791146016, 917097097u, 917097097u)
L(14.28, 935854u, 935854u)
L(14.4811841, 949039u, 949039u)
L(14.9283, 978341u, 978341u)
L(15.54301934071, 1018627u, 1018627u)
L(15.83511869, 1037770u, 1037770u)
L(15587.32271318698367716694, 1021530781u, 1021530781u)
L(16.2222966, 1063144u, 1063144u)
L(16073.218977, 1053374479u, 1053374479u)
L(16425.618622096561, 1076469342u, 1076469342u)
L(17020.0978516587755001, 1115429133u, 1115429133u)
L(17915.40970166604882062, 1174104290u, 1174104290u)
L(18.78459122870900, 1231067u, 1231067u)
L(19.034896711936573386112, 1247471u, 1247471u)
L(19.904950369463, 1304491u, 1304491u)
L(19237.361709, 1260739737u, 1260739737u)
L(2, 131072u, 131072u)
L(2., 131072u, 131072u)
L(2.0, 131072u, 131072u)
L(2.25, 147456u, 147456u)
L(2.5, 163840u, 163840u)
L(21432.7, 1404613427u, 1404613427u)
L(2297.274, 150554149u, 150554149u)
L(23.510761, 1540801u, 1540801u)
L(23178.3558277301683, 1519016728u, 1519016728u)
L(23368.433, 1531473625u, 1531473625u)
L(23502.48893115367844785, 1540259115u, 1540259115u)
L(24670.09118801215127098, 1616779096u, 1616779096u)
L(255, 16711680u, 16711680u)
L(255., 16711680u, 16711680u)
L(255.0, 16711680u, 16711680u)
L(255.25, 16728064u, 16728064u)
L(255.5, 16744448u, 16744448u)
L(256, 16777216u, 16777216u)
L(256., 16777216u, 16777216u)
L(256.0, 16777216u, 16777216u)
L(256.25, 16793600u, 16793600u)
L(256.5, 16809984u, 16809984u)
L(27.66744244, 1813214u, 1813214u)
L(27808.073526472, 1822429907u, 1822429907u)
L(28.2572790, 1851869u, 1851869u)
L(28115.9903, 1842609540u, 1842609540u)
L(2860.877822045262734, 187490489u, 187490489u)
L(28733.15941170065710, 1883056335u, 1883056335u)
L(3.0000000000000000000000001, 196608u, 196608u)
L(3.000000000000000000000001, 196608u, 196608u)
L(3.00000000000000000000001, 196608u, 196608u)
L(3.0000000000000000000001, 196608u, 196608u)
L(3.000000000000000000001, 196608u, 196608u)
L(3.00000000000000000001, 196608u, 196608u)
L(3.0000000000000000001, 196608u, 196608u)
L(3.000000000000000001, 196608u, 196608u)
L(3.00000000000000001, 196608u, 196608u)
L(3.0000000000000001, 196608u, 196608u)
L(3.000000000000001, 196608u, 196608u)
L(3.00000000000001, 196608u, 196608u)
L(3.0000000000001, 196608u, 196608u)
L(3.000000000001, 196608u, 196608u)
L(3.00000000001, 196608u, 196608u)
L(3.0000000001, 196608u, 196608u)
L(3.000000001, 196608u, 196608u)
L(3.00000001, 196608u, 196608u)
L(3.0000001, 196608u, 196608u)
L(3.000001, 196608u, 196608u)
L(3.00001, 196609u, 196609u)
L(3.0001, 196615u, 196615u)
L(3.001, 196674u, 196674u)
L(3.01, 197263u, 197263u)
L(3.5866, 235051u, 235051u)
L(30076.61, 1971100713u, 1971100713u)
L(30311.674700, 1986505913u, 1986505913u)
L(30556.1937, 2002530710u, 2002530710u)
L(31.75544164, 2081125u, 2081125u)
L(31935.0125925984, 2092892985u, 2092892985u)
L(32.0893213637277248234, 2103006u, 2103006u)
L(32115.39893900266349604197, 2104714785u, 2104714785u)
L(32766, 2147352576u, 2147352576u)
L(32766., 2147352576u, 2147352576u)
L(32766.0, 2147352576u, 2147352576u)
L(32766.000, 2147352576u, 2147352576u)
L(32766.0000, 2147352576u, 2147352576u)
L(32766.00000762939453121, 2147352576u, 2147352577u)
L(32766.00000762939453125000, 2147352576u, 2147352577u)
L(32766.000007629394531251, 2147352576u, 2147352577u)
L(32766.00001, 2147352577u, 2147352577u)
L(32766.000015, 2147352577u, 2147352577u)
L(32766.0000152, 2147352577u, 2147352577u)
L(32766.00001525, 2147352577u, 2147352577u)
L(32766.000015258, 2147352577u, 2147352577u)
L(32766.0000152587, 2147352577u, 2147352577u)
L(32766.000015258789, 2147352577u, 2147352577u)
L(32766.00001525878906, 2147352577u, 2147352577u)
L(32766.000015258789062, 2147352577u, 2147352577u)
L(32766.0000152587890625, 2147352577u, 2147352577u)
L(32766.00001525878906250, 2147352577u, 2147352577u)
L(32766.000015258789062500, 2147352577u, 2147352577u)
L(32766.00001525878906250000, 2147352577u, 2147352577u)
L(32766.00002288818359371, 2147352577u, 2147352578u)
L(32766.0000228881835937500, 2147352577u, 2147352578u)
L(32766.00002288818359375000, 2147352577u, 2147352578u)
L(32766.000022888183593751, 2147352577u, 2147352578u)
L(32766.00003, 2147352578u, 2147352578u)
L(32766.000030, 2147352578u, 2147352578u)
L(32766.0000305, 2147352578u, 2147352578u)
L(32766.00003051, 2147352578u, 2147352578u)
L(32766.000030517, 2147352578u, 2147352578u)
L(32766.0000305175, 2147352578u, 2147352578u)
L(32766.000030517578, 2147352578u, 2147352578u)
L(32766.00003051757812, 2147352578u, 2147352578u)
L(32766.000030517578125, 2147352578u, 2147352578u)
L(32766.0000305175781250, 2147352578u, 2147352578u)
L(32766.00003051757812500, 2147352578u, 2147352578u)
L(32766.000030517578125000, 2147352578u, 2147352578u)
L(32766.00003051757812500000, 2147352578u, 2147352578u)
L(32766.00003814697265621, 2147352578u, 2147352579u)
L(32766.00003814697265625, 2147352578u, 2147352579u)
L(32766.0000381469726562500, 2147352578u, 2147352579u)
L(32766.000038146972656251, 2147352578u, 2147352579u)
L(32766.00004, 2147352579u, 2147352579u)
L(32766.000045, 2147352579u, 2147352579u)
L(32766.0000457, 2147352579u, 2147352579u)
L(32766.00004577, 2147352579u, 2147352579u)
L(32766.000045776, 2147352579u, 2147352579u)
L(32766.0000457763, 2147352579u, 2147352579u)
L(32766.000045776367, 2147352579u, 2147352579u)
L(32766.00004577636718, 2147352579u, 2147352579u)
L(32766.000045776367187, 2147352579u, 2147352579u)
L(32766.0000457763671875, 2147352579u, 2147352579u)
L(32766.00004577636718750, 2147352579u, 2147352579u)
L(32766.000045776367187500, 2147352579u, 2147352579u)
L(32766.00004577636718750000, 2147352579u, 2147352579u)
L(32766.00005340576171871, 2147352579u, 2147352580u)
L(32766.00005340576171875, 2147352579u, 2147352580u)
L(32766.000053405761718751, 2147352579u, 2147352580u)
L(32766.25, 2147368960u, 2147368960u)
L(32766.499, 2147385278u, 2147385278u)
L(32766.4999, 2147385337u, 2147385337u)
L(32766.49997711181640621, 2147385342u, 2147385343u)
L(32766.49997711181640625000, 2147385342u, 2147385343u)
L(32766.499977111816406251, 2147385342u, 2147385343u)
L(32766.49998, 2147385343u, 2147385343u)
L(32766.499984, 2147385343u, 2147385343u)
L(32766.4999847, 2147385343u, 2147385343u)
L(32766.49998474, 2147385343u, 2147385343u)
L(32766.499984741, 2147385343u, 2147385343u)
L(32766.4999847412, 2147385343u, 2147385343u)
L(32766.499984741210, 2147385343u, 2147385343u)
L(32766.49998474121093, 2147385343u, 2147385343u)
L(32766.499984741210937, 2147385343u, 2147385343u)
L(32766.4999847412109375, 2147385343u, 2147385343u)
L(32766.49998474121093750, 2147385343u, 2147385343u)
L(32766.499984741210937500, 2147385343u, 2147385343u)
L(32766.49998474121093750000, 2147385343u, 2147385343u)
L(32766.49999237060546871, 2147385343u, 2147385344u)
L(32766.49999237060546875, 2147385343u, 2147385344u)
L(32766.499992370605468750, 2147385343u, 2147385344u)
L(32766.499992370605468751, 2147385343u, 2147385344u)
L(32766.5, 2147385344u, 2147385344u)
L(32766.500, 2147385344u, 2147385344u)
L(32766.5000, 2147385344u, 2147385344u)
L(32766.50000, 2147385344u, 2147385344u)
L(32766.500000, 2147385344u, 2147385344u)
L(32766.5000000, 2147385344u, 2147385344u)
L(32766.50000000, 2147385344u, 2147385344u)
L(32766.500000000, 2147385344u, 2147385344u)
L(32766.5000000000, 2147385344u, 2147385344u)
L(32766.500000000000, 2147385344u, 2147385344u)
L(32766.50000000000000, 2147385344u, 2147385344u)
L(32766.500000000000000, 2147385344u, 2147385344u)
L(32766.5000000000000000, 2147385344u, 2147385344u)
L(32766.50000000000000000, 2147385344u, 2147385344u)
L(32766.500000000000000000, 2147385344u, 2147385344u)
L(32766.50000000000000000000, 2147385344u, 2147385344u)
L(32766.50000762939453121, 2147385344u, 2147385345u)
L(32766.5000076293945312500, 2147385344u, 2147385345u)
L(32766.50000762939453125000, 2147385344u, 2147385345u)
L(32766.500007629394531251, 2147385344u, 2147385345u)
L(32766.50001, 2147385345u, 2147385345u)
L(32766.500015, 2147385345u, 2147385345u)
L(32766.5000152, 2147385345u, 2147385345u)
L(32766.50001525, 2147385345u, 2147385345u)
L(32766.500015258, 2147385345u, 2147385345u)
L(32766.5000152587, 2147385345u, 2147385345u)
L(32766.500015258789, 2147385345u, 2147385345u)
L(32766.50001525878906, 2147385345u, 2147385345u)
L(32766.500015258789062, 2147385345u, 2147385345u)
L(32766.5000152587890625, 2147385345u, 2147385345u)
L(32766.50001525878906250, 2147385345u, 2147385345u)
L(32766.500015258789062500, 2147385345u, 2147385345u)
L(32766.50001525878906250000, 2147385345u, 2147385345u)
L(32766.50002288818359371, 2147385345u, 2147385346u)
L(32766.50002288818359375, 2147385345u, 2147385346u)
L(32766.500022888183593751, 2147385345u, 2147385346u)
L(32766.999, 2147418046u, 2147418046u)
L(32766.9999, 2147418105u, 2147418105u)
L(32766.99996, 2147418109u, 2147418109u)
L(32766.99996185302734371, 2147418109u, 2147418110u)
L(32766.99996185302734375, 2147418109u, 2147418110u)
L(32766.999961853027343751, 2147418109u, 2147418110u)
L(32766.999969, 2147418110u, 2147418110u)
L(32766.9999694, 2147418110u, 2147418110u)
L(32766.99996948, 2147418110u, 2147418110u)
L(32766.999969482, 2147418110u, 2147418110u)
L(32766.9999694824, 2147418110u, 2147418110u)
L(32766.999969482421, 2147418110u, 2147418110u)
L(32766.99996948242187, 2147418110u, 2147418110u)
L(32766.999969482421875, 2147418110u, 2147418110u)
L(32766.9999694824218750, 2147418110u, 2147418110u)
L(32766.99996948242187500, 2147418110u, 2147418110u)
L(32766.999969482421875000, 2147418110u, 2147418110u)
L(32766.99996948242187500000, 2147418110u, 2147418110u)
L(32766.99997711181640621, 2147418110u, 2147418111u)
L(32766.9999771118164062500, 2147418110u, 2147418111u)
L(32766.99997711181640625000, 2147418110u, 2147418111u)
L(32766.999977111816406251, 2147418110u, 2147418111u)
L(32766.99998, 2147418111u, 2147418111u)
L(32766.999984, 2147418111u, 2147418111u)
L(32766.9999847, 2147418111u, 2147418111u)
L(32766.99998474, 2147418111u, 2147418111u)
L(32766.999984741, 2147418111u, 2147418111u)
L(32766.9999847412, 2147418111u, 2147418111u)
L(32766.999984741210, 2147418111u, 2147418111u)
L(32766.99998474121093, 2147418111u, 2147418111u)
L(32766.999984741210937, 2147418111u, 2147418111u)
L(32766.9999847412109375, 2147418111u, 2147418111u)
L(32766.99998474121093750, 2147418111u, 2147418111u)
L(32766.999984741210937500, 2147418111u, 2147418111u)
L(32766.99998474121093750000, 2147418111u, 2147418111u)
L(32766.99999237, 2147418111u, 2147418111u)
L(32766.99999237060546871, 2147418111u, 2147418112u)
L(32766.999992370605468751, 2147418111u, 2147418112u)
L(32767, 2147418112u, 2147418112u)
L(32767., 2147418112u, 2147418112u)
L(32767.0, 2147418112u, 2147418112u)
L(32767.000, 2147418112u, 2147418112u)
L(32767.0000, 2147418112u, 2147418112u)
L(32767.00000762939453121, 2147418112u, 2147418113u)
L(32767.000007629394531250, 2147418112u, 2147418113u)
L(32767.000007629394531251, 2147418112u, 2147418113u)
L(32767.00001, 2147418113u, 2147418113u)
L(32767.000015, 2147418113u, 2147418113u)
L(32767.0000152, 2147418113u, 2147418113u)
L(32767.00001525, 2147418113u, 2147418113u)
L(32767.000015258, 2147418113u, 2147418113u)
L(32767.0000152587, 2147418113u, 2147418113u)
L(32767.000015258789, 2147418113u, 2147418113u)
L(32767.00001525878906, 2147418113u, 2147418113u)
L(32767.000015258789062, 2147418113u, 2147418113u)
L(32767.0000152587890625, 2147418113u, 2147418113u)
L(32767.00001525878906250, 2147418113u, 2147418113u)
L(32767.000015258789062500, 2147418113u, 2147418113u)
L(32767.00001525878906250000, 2147418113u, 2147418113u)
L(32767.00002288, 2147418113u, 2147418113u)
L(32767.00002288818359371, 2147418113u, 2147418114u)
L(32767.00002288818359375000, 2147418113u, 2147418114u)
L(32767.000022888183593751, 2147418113u, 2147418114u)
L(32767.00003, 2147418114u, 2147418114u)
L(32767.000030, 2147418114u, 2147418114u)
L(32767.0000305, 2147418114u, 2147418114u)
L(32767.00003051, 2147418114u, 2147418114u)
L(32767.000030517, 2147418114u, 2147418114u)
L(32767.0000305175, 2147418114u, 2147418114u)
L(32767.000030517578, 2147418114u, 2147418114u)
L(32767.00003051757812, 2147418114u, 2147418114u)
L(32767.000030517578125, 2147418114u, 2147418114u)
L(32767.0000305175781250, 2147418114u, 2147418114u)
L(32767.00003051757812500, 2147418114u, 2147418114u)
L(32767.000030517578125000, 2147418114u, 2147418114u)
L(32767.00003051757812500000, 2147418114u, 2147418114u)
L(32767.00003814697265621, 2147418114u, 2147418115u)
L(32767.000038146972656250, 2147418114u, 2147418115u)
L(32767.0000381469726562500, 2147418114u, 2147418115u)
L(32767.000038146972656251, 2147418114u, 2147418115u)
L(32767.00004, 2147418115u, 2147418115u)
L(32767.000045, 2147418115u, 2147418115u)
L(32767.0000457, 2147418115u, 2147418115u)
L(32767.00004577, 2147418115u, 2147418115u)
L(32767.000045776, 2147418115u, 2147418115u)
L(32767.0000457763, 2147418115u, 2147418115u)
L(32767.000045776367, 2147418115u, 2147418115u)
L(32767.00004577636718, 2147418115u, 2147418115u)
L(32767.000045776367187, 2147418115u, 2147418115u)
L(32767.0000457763671875, 2147418115u, 2147418115u)
L(32767.00004577636718750, 2147418115u, 2147418115u)
L(32767.000045776367187500, 2147418115u, 2147418115u)
L(32767.00004577636718750000, 2147418115u, 2147418115u)
L(32767.00005340, 2147418115u, 2147418115u)
L(32767.00005340576171871, 2147418115u, 2147418116u)
L(32767.000053405761718751, 2147418115u, 2147418116u)
L(32767.25, 2147434496u, 2147434496u)
L(32767.499, 2147450814u, 2147450814u)
L(32767.4999, 2147450873u, 2147450873u)
L(32767.49997711181640621, 2147450878u, 2147450879u)
L(32767.49997711181640625, 2147450878u, 2147450879u)
L(32767.499977111816406251, 2147450878u, 2147450879u)
L(32767.49998, 2147450879u, 2147450879u)
L(32767.499984, 2147450879u, 2147450879u)
L(32767.4999847, 2147450879u, 2147450879u)
L(32767.49998474, 2147450879u, 2147450879u)
L(32767.499984741, 2147450879u, 2147450879u)
L(32767.4999847412, 2147450879u, 2147450879u)
L(32767.499984741210, 2147450879u, 2147450879u)
L(32767.49998474121093, 2147450879u, 2147450879u)
L(32767.499984741210937, 2147450879u, 2147450879u)
L(32767.4999847412109375, 2147450879u, 2147450879u)
L(32767.49998474121093750, 2147450879u, 2147450879u)
L(32767.499984741210937500, 2147450879u, 2147450879u)
L(32767.49998474121093750000, 2147450879u, 2147450879u)
L(32767.49999237060546871, 2147450879u, 2147450880u)
L(32767.49999237060546875, 2147450879u, 2147450880u)
L(32767.499992370605468750, 2147450879u, 2147450880u)
L(32767.499992370605468751, 2147450879u, 2147450880u)
L(32767.5, 2147450880u, 2147450880u)
L(32767.500, 2147450880u, 2147450880u)
L(32767.5000, 2147450880u, 2147450880u)
L(32767.50000, 2147450880u, 2147450880u)
L(32767.500000, 2147450880u, 2147450880u)
L(32767.5000000, 2147450880u, 2147450880u)
L(32767.50000000, 2147450880u, 2147450880u)
L(32767.500000000, 2147450880u, 2147450880u)
L(32767.5000000000, 2147450880u, 2147450880u)
L(32767.500000000000, 2147450880u, 2147450880u)
L(32767.50000000000000, 2147450880u, 2147450880u)
L(32767.500000000000000, 2147450880u, 2147450880u)
L(32767.5000000000000000, 2147450880u, 2147450880u)
L(32767.50000000000000000, 2147450880u, 2147450880u)
L(32767.500000000000000000, 2147450880u, 2147450880u)
L(32767.50000000000000000000, 2147450880u, 2147450880u)
L(32767.50000762, 2147450880u, 2147450880u)
L(32767.50000762939453121, 2147450880u, 2147450881u)
L(32767.5000076293945312500, 2147450880u, 2147450881u)
L(32767.500007629394531251, 2147450880u, 2147450881u)
L(32767.50001, 2147450881u, 2147450881u)
L(32767.500015, 2147450881u, 2147450881u)
L(32767.5000152, 2147450881u, 2147450881u)
L(32767.50001525, 2147450881u, 2147450881u)
L(32767.500015258, 2147450881u, 2147450881u)
L(32767.5000152587, 2147450881u, 2147450881u)
L(32767.500015258789, 2147450881u, 2147450881u)
L(32767.50001525878906, 2147450881u, 2147450881u)
L(32767.500015258789062, 2147450881u, 2147450881u)
L(32767.5000152587890625, 2147450881u, 2147450881u)
L(32767.50001525878906250, 2147450881u, 2147450881u)
L(32767.500015258789062500, 2147450881u, 2147450881u)
L(32767.50001525878906250000, 2147450881u, 2147450881u)
L(32767.50002288818359371, 2147450881u, 2147450882u)
L(32767.5000228881835937500, 2147450881u, 2147450882u)
L(32767.500022888183593751, 2147450881u, 2147450882u)
L(32767.999, 2147483582u, 2147483582u)
L(32767.9999, 2147483641u, 2147483641u)
L(32767.99996, 2147483645u, 2147483645u)
L(32767.99996185302734371, 2147483645u, 2147483646u)
L(32767.99996185302734375, 2147483645u, 2147483646u)
L(32767.999961853027343751, 2147483645u, 2147483646u)
L(32767.999969, 2147483646u, 2147483646u)
L(32767.9999694, 2147483646u, 2147483646u)
L(32767.99996948, 2147483646u, 2147483646u)
L(32767.999969482, 2147483646u, 2147483646u)
L(32767.9999694824, 2147483646u, 2147483646u)
L(32767.999969482421, 2147483646u, 2147483646u)
L(32767.99996948242187, 2147483646u, 2147483646u)
L(32767.999969482421875, 2147483646u, 2147483646u)
L(32767.9999694824218750, 2147483646u, 2147483646u)
L(32767.99996948242187500, 2147483646u, 2147483646u)
L(32767.999969482421875000, 2147483646u, 2147483646u)
L(32767.99996948242187500000, 2147483646u, 2147483646u)
L(32767.99997711181640621, 2147483646u, 2147483647u)
L(32767.999977111816406250, 2147483646u, 2147483647u)
L(32767.9999771118164062500, 2147483646u, 2147483647u)
L(32767.999977111816406251, 2147483646u, 2147483647u)
L(32767.99998, 2147483647u, 2147483647u)
L(32767.999984, 2147483647u, 2147483647u)
L(32767.9999847, 2147483647u, 2147483647u)
L(32767.99998474, 2147483647u, 2147483647u)
L(32767.999984741, 2147483647u, 2147483647u)
L(32767.9999847412, 2147483647u, 2147483647u)
L(32767.999984741210, 2147483647u, 2147483647u)
L(32767.99998474121093, 2147483647u, 2147483647u)
L(32767.999984741210937, 2147483647u, 2147483647u)
L(32767.9999847412109375, 2147483647u, 2147483647u)
L(32767.99998474121093750, 2147483647u, 2147483647u)
L(32767.999984741210937500, 2147483647u, 2147483647u)
L(32767.99998474121093750000, 2147483647u, 2147483647u)
L(3301.8, 216386765u, 216386765u)
L(34.783917063783569, 2279599u, 2279599u)
L(3511.728368907290398, 230144630u, 230144630u)
L(36.072481013584, 2364046u, 2364046u)
L(37.111216168318464, 2432121u, 2432121u)
L(3846.8249351, 252105519u, 252105519u)
L(4.5830053939, 300352u, 300352u)
L(4095, 268369920u, 268369920u)
L(4095., 268369920u, 268369920u)
L(4095.0, 268369920u, 268369920u)
L(4095.25, 268386304u, 268386304u)
L(4095.5, 268402688u, 268402688u)
L(4096, 268435456u, 268435456u)
L(4096., 268435456u, 268435456u)
L(4096.0, 268435456u, 268435456u)
L(4096.25, 268451840u, 268451840u)
L(4096.5, 268468224u, 268468224u)
L(41.83365998500744499002, 2741611u, 2741611u)
L(42.84907188025838, 2808157u, 2808157u)
L(4279.4711066715612, 280459418u, 280459418u)
L(47.750977984, 3129408u, 3129408u)
L(48.3098081303693, 3166032u, 3166032u)
L(48.541029091738502456559, 3181185u, 3181185u)
L(49.2964109700, 3230690u, 3230690u)
L(5.0, 327680u, 327680u)
L(5.00, 327680u, 327680u)
L(5.000, 327680u, 327680u)
L(5.0000, 327680u, 327680u)
L(5.00000, 327680u, 327680u)
L(5.000000, 327680u, 327680u)
L(5.0000000, 327680u, 327680u)
L(5.00000000, 327680u, 327680u)
L(5.000000000, 327680u, 327680u)
L(5.0000000000, 327680u, 327680u)
L(5.00000000000, 327680u, 327680u)
L(5.000000000000, 327680u, 327680u)
L(5.0000000000000, 327680u, 327680u)
L(5.00000000000000, 327680u, 327680u)
L(5.000000000000000, 327680u, 327680u)
L(5.0000000000000000, 327680u, 327680u)
L(5.00000000000000000, 327680u, 327680u)
L(5.000000000000000000, 327680u, 327680u)
L(5.0000000000000000000, 327680u, 327680u)
L(5.00000000000000000000, 327680u, 327680u)
L(5.000000000000000000000, 327680u, 327680u)
L(5.0000000000000000000000, 327680u, 327680u)
L(5.00000000000000000000000, 327680u, 327680u)
L(5.000000000000000000000000, 327680u, 327680u)
L(51.77152607190, 3392899u, 3392899u)
L(57.21912, 3749912u, 3749912u)
L(57.3, 3755213u, 3755213u)
L(57.960768873, 3798517u, 3798517u)
L(575.5164, 37717043u, 37717043u)
L(59.8948666, 3925270u, 3925270u)
L(6.185759003864685794, 405390u, 405390u)
L(6.9868023662713237319, 457887u, 457887u)
L(62.88531183656267045, 4121252u, 4121252u)
L(63.006080692998, 4129167u, 4129167u)
L(63.075371940201, 4133708u, 4133708u)
L(65.539549434, 4295200u, 4295200u)
L(7.69968835437077, 504607u, 504607u)
L(70.6483297539029907441, 4630009u, 4630009u)
L(70.794009587318, 4639556u, 4639556u)
L(77.000, 5046272u, 5046272u)
L(77.0000, 5046272u, 5046272u)
L(77.00000762, 5046272u, 5046272u)
L(77.00000762939453121, 5046272u, 5046273u)
L(77.000007629394531251, 5046272u, 5046273u)
L(77.00001, 5046273u, 5046273u)
L(77.000015, 5046273u, 5046273u)
L(77.0000152, 5046273u, 5046273u)
L(77.00001525, 5046273u, 5046273u)
L(77.000015258, 5046273u, 5046273u)
L(77.0000152587, 5046273u, 5046273u)
L(77.000015258789, 5046273u, 5046273u)
L(77.00001525878906, 5046273u, 5046273u)
L(77.000015258789062, 5046273u, 5046273u)
L(77.0000152587890625, 5046273u, 5046273u)
L(77.00001525878906250, 5046273u, 5046273u)
L(77.000015258789062500, 5046273u, 5046273u)
L(77.00001525878906250000, 5046273u, 5046273u)
L(77.00002288818359371, 5046273u, 5046274u)
L(77.000022888183593750, 5046273u, 5046274u)
L(77.000022888183593751, 5046273u, 5046274u)
L(77.00003, 5046274u, 5046274u)
L(77.000030, 5046274u, 5046274u)
L(77.0000305, 5046274u, 5046274u)
L(77.00003051, 5046274u, 5046274u)
L(77.000030517, 5046274u, 5046274u)
L(77.0000305175, 5046274u, 5046274u)
L(77.000030517578, 5046274u, 5046274u)
L(77.00003051757812, 5046274u, 5046274u)
L(77.000030517578125, 5046274u, 5046274u)
L(77.0000305175781250, 5046274u, 5046274u)
L(77.00003051757812500, 5046274u, 5046274u)
L(77.000030517578125000, 5046274u, 5046274u)
L(77.00003051757812500000, 5046274u, 5046274u)
L(77.00003814, 5046274u, 5046274u)
L(77.00003814697265621, 5046274u, 5046275u)
L(77.000038146972656251, 5046274u, 5046275u)
L(77.00004, 5046275u, 5046275u)
L(77.000045, 5046275u, 5046275u)
L(77.0000457, 5046275u, 5046275u)
L(77.00004577, 5046275u, 5046275u)
L(77.000045776, 5046275u, 5046275u)
L(77.0000457763, 5046275u, 5046275u)
L(77.000045776367, 5046275u, 5046275u)
L(77.00004577636718, 5046275u, 5046275u)
L(77.000045776367187, 5046275u, 5046275u)
L(77.0000457763671875, 5046275u, 5046275u)
L(77.00004577636718750, 5046275u, 5046275u)
L(77.000045776367187500, 5046275u, 5046275u)
L(77.00004577636718750000, 5046275u, 5046275u)
L(77.00005340, 5046275u, 5046275u)
L(77.00005340576171871, 5046275u, 5046276u)
L(77.000053405761718751, 5046275u, 5046276u)
L(77.499, 5078974u, 5078974u)
L(77.4999, 5079033u, 5079033u)
L(77.49997711, 5079038u, 5079038u)
L(77.49997711181640621, 5079038u, 5079039u)
L(77.499977111816406251, 5079038u, 5079039u)
L(77.49998, 5079039u, 5079039u)
L(77.499984, 5079039u, 5079039u)
L(77.4999847, 5079039u, 5079039u)
L(77.49998474, 5079039u, 5079039u)
L(77.499984741, 5079039u, 5079039u)
L(77.4999847412, 5079039u, 5079039u)
L(77.499984741210, 5079039u, 5079039u)
L(77.49998474121093, 5079039u, 5079039u)
L(77.499984741210937, 5079039u, 5079039u)
L(77.4999847412109375, 5079039u, 5079039u)
L(77.49998474121093750, 5079039u, 5079039u)
L(77.499984741210937500, 5079039u, 5079039u)
L(77.49998474121093750000, 5079039u, 5079039u)
L(77.49999237060546871, 5079039u, 5079040u)
L(77.49999237060546875, 5079039u, 5079040u)
L(77.4999923706054687500, 5079039u, 5079040u)
L(77.499992370605468751, 5079039u, 5079040u)
L(77.500, 5079040u, 5079040u)
L(77.5000, 5079040u, 5079040u)
L(77.50000, 5079040u, 5079040u)
L(77.500000, 5079040u, 5079040u)
L(77.5000000, 5079040u, 5079040u)
L(77.50000000, 5079040u, 5079040u)
L(77.500000000, 5079040u, 5079040u)
L(77.5000000000, 5079040u, 5079040u)
L(77.500000000000, 5079040u, 5079040u)
L(77.50000000000000, 5079040u, 5079040u)
L(77.500000000000000, 5079040u, 5079040u)
L(77.5000000000000000, 5079040u, 5079040u)
L(77.50000000000000000, 5079040u, 5079040u)
L(77.500000000000000000, 5079040u, 5079040u)
L(77.50000000000000000000, 5079040u, 5079040u)
L(77.50000762, 5079040u, 5079040u)
L(77.50000762939453121, 5079040u, 5079041u)
L(77.50000762939453125000, 5079040u, 5079041u)
L(77.500007629394531251, 5079040u, 5079041u)
L(77.50001, 5079041u, 5079041u)
L(77.500015, 5079041u, 5079041u)
L(77.5000152, 5079041u, 5079041u)
L(77.50001525, 5079041u, 5079041u)
L(77.500015258, 5079041u, 5079041u)
L(77.5000152587, 5079041u, 5079041u)
L(77.500015258789, 5079041u, 5079041u)
L(77.50001525878906, 5079041u, 5079041u)
L(77.500015258789062, 5079041u, 5079041u)
L(77.5000152587890625, 5079041u, 5079041u)
L(77.50001525878906250, 5079041u, 5079041u)
L(77.500015258789062500, 5079041u, 5079041u)
L(77.50001525878906250000, 5079041u, 5079041u)
L(77.50002288, 5079041u, 5079041u)
L(77.50002288818359371, 5079041u, 5079042u)
L(77.500022888183593751, 5079041u, 5079042u)
L(77.999, 5111742u, 5111742u)
L(77.9999, 5111801u, 5111801u)
L(77.99996, 5111805u, 5111805u)
L(77.99996185, 5111805u, 5111805u)
L(77.99996185302734371, 5111805u, 5111806u)
L(77.999961853027343751, 5111805u, 5111806u)
L(77.999969, 5111806u, 5111806u)
L(77.9999694, 5111806u, 5111806u)
L(77.99996948, 5111806u, 5111806u)
L(77.999969482, 5111806u, 5111806u)
L(77.9999694824, 5111806u, 5111806u)
L(77.999969482421, 5111806u, 5111806u)
L(77.99996948242187, 5111806u, 5111806u)
L(77.999969482421875, 5111806u, 5111806u)
L(77.9999694824218750, 5111806u, 5111806u)
L(77.99996948242187500, 5111806u, 5111806u)
L(77.999969482421875000, 5111806u, 5111806u)
L(77.99996948242187500000, 5111806u, 5111806u)
L(77.99997711181640621, 5111806u, 5111807u)
L(77.9999771118164062500, 5111806u, 5111807u)
L(77.99997711181640625000, 5111806u, 5111807u)
L(77.999977111816406251, 5111806u, 5111807u)
L(77.99998, 5111807u, 5111807u)
L(77.999984, 5111807u, 5111807u)
L(77.9999847, 5111807u, 5111807u)
L(77.99998474, 5111807u, 5111807u)
L(77.999984741, 5111807u, 5111807u)
L(77.9999847412, 5111807u, 5111807u)
L(77.999984741210, 5111807u, 5111807u)
L(77.99998474121093, 5111807u, 5111807u)
L(77.999984741210937, 5111807u, 5111807u)
L(77.9999847412109375, 5111807u, 5111807u)
L(77.99998474121093750, 5111807u, 5111807u)
L(77.999984741210937500, 5111807u, 5111807u)
L(77.99998474121093750000, 5111807u, 5111807u)
L(77.99999237060546871, 5111807u, 5111808u)
L(77.99999237060546875, 5111807u, 5111808u)
L(77.999992370605468751, 5111807u, 5111808u)
L(78.4401908128762188, 5140656u, 5140656u)
L(78.692903169115528638257, 5157218u, 5157218u)
L(85.13, 5579080u, 5579080u)
L(8786.4713477481867673, 575830186u, 575830186u)
L(88.65614448238069, 5810169u, 5810169u)
L(89.96786205780114587578, 5896134u, 5896134u)
L(9, 589824u, 589824u)
L(9., 589824u, 589824u)
L(9.0, 589824u, 589824u)
L(9.25, 606208u, 606208u)
L(9.5, 622592u, 622592u)
L(9.6, 629146u, 629146u)
L(90.321778, 5919328u, 5919328u)
L(92.450905510077, 6058863u, 6058863u)
L(93.980, 6159073u, 6159073u)
L(9458.2, 619852595u, 619852595u)
L(99, 6488064u, 6488064u)
L(99., 6488064u, 6488064u)
L(99.0, 6488064u, 6488064u)
L(99.25, 6504448u, 6504448u)
L(99.5, 6520832u, 6520832u)
L(9918.0564551406429898, 649989748u, 649989748u)
L(9974.66, 653699318u, 653699318u)
