--------------------------- MODULE NormalQuantiles ---------------------------
(* Quantiles of the standard normal distribution, to 15 digits. *)
EXTENDS Rat
Phi == [q \in {"1/50", "1/32", "1/25", "1/20", "3/50", "1/16", "1/15", "2/25", "1/12", "3/32", "1/10", "1/9", "3/25", "1/8", "2/15", "7/50", "1/7", "3/20", "5/32", "4/25", "1/6", "9/50", "3/16", "1/5", "7/32", "11/50", "2/9", "6/25", "1/4", "13/50", "4/15", "7/25", "9/32", "2/7", "3/10", "5/16", "8/25", "1/3", "17/50", "11/32", "7/20", "9/25", "3/8", "19/50", "2/5", "13/32", "5/12", "21/50", "3/7", "7/16", "11/25", "4/9", "9/20", "23/50", "7/15", "15/32", "12/25", "1/2", "13/25", "17/32", "8/15", "27/50", "11/20", "5/9", "14/25", "9/16", "4/7", "29/50", "7/12", "19/32", "3/5", "31/50", "5/8", "16/25", "13/20", "21/32", "33/50", "2/3", "17/25", "11/16", "7/10", "5/7", "23/32", "18/25", "11/15", "37/50", "3/4", "19/25", "7/9", "39/50", "25/32", "4/5", "13/16", "41/50", "5/6", "21/25", "27/32", "17/20", "6/7", "43/50", "13/15", "7/8", "22/25", "8/9", "9/10", "29/32", "11/12", "23/25", "14/15", "15/16", "47/50", "19/20", "24/25", "31/32", "49/50"} |->
  CASE q = "1/50" -> "-1156157853579255/562949953421312"
    [] q = "1/32" -> "-1845335142576516/990660639274285"
    [] q = "1/25" -> "-569013800791633/325023320934203"
    [] q = "1/20" -> "-993198702903143/603821936875873"
    [] q = "3/50" -> "-1063712912073303/684159362990159"
    [] q = "1/16" -> "-23821329770563/15527677963935"
    [] q = "1/15" -> "-1482598246055526/987683783172295"
    [] q = "2/25" -> "-395492484714959/281474976710656"
    [] q = "1/12" -> "-1044389368387421/755165439911823"
    [] q = "3/32" -> "-296108819438183/224663407596993"
    [] q = "1/10" -> "-1256151221364970/980180006124969"
    [] q = "1/9" -> "-103284331334891/84614875653113"
    [] q = "3/25" -> "-309282941725308/263222483702533"
    [] q = "1/8" -> "-152620166414907/132672880968581"
    [] q = "2/15" -> "-173653031089862/156335495514057"
    [] q = "7/50" -> "-684704017301281/633797796107921"
    [] q = "1/7" -> "-707051508049823/662299578562109"
    [] q = "3/20" -> "-1017502117639521/981734212689235"
    [] q = "5/32" -> "-133268903523548/131950693760283"
    [] q = "4/25" -> "-559830019032387/562949953421312"
    [] q = "1/6" -> "-480136841558782/496305704134269"
    [] q = "9/50" -> "-787970126172192/860826064525963"
    [] q = "3/16" -> "-239241157119230/269674897216323"
    [] q = "1/5" -> "-76243689759424/90591452209147"
    [] q = "7/32" -> "-753363775965007/970302242496617"
    [] q = "11/50" -> "-492580203942626/637897607608689"
    [] q = "2/9" -> "-272934056932564/356911997178167"
    [] q = "6/25" -> "-426598379253686/603988151392665"
    [] q = "1/4" -> "-22926803084401/33991329116174"
    [] q = "13/50" -> "-616283698542637/957935960024845"
    [] q = "4/15" -> "-43834500858257/70368744177664"
    [] q = "7/25" -> "-19644882207563/33705358939753"
    [] q = "9/32" -> "-531473505775203/917706769565800"
    [] q = "2/7" -> "-490882824062540/867362568908699"
    [] q = "3/10" -> "-394995757539677/753232973590913"
    [] q = "5/16" -> "-141893566014039/290303629200203"
    [] q = "8/25" -> "-427465191312209/913975387838341"
    [] q = "1/3" -> "-5693634407993/13218652305777"
    [] q = "17/50" -> "-135612337951931/328786570900506"
    [] q = "11/32" -> "-226446655536585/562949953421312"
    [] q = "7/20" -> "-308128662975909/799668561207413"
    [] q = "9/25" -> "-240063641909712/669710567656475"
    [] q = "3/8" -> "-1420653481646/4458499615273"
    [] q = "19/50" -> "-302083033327429/988877353652555"
    [] q = "2/5" -> "-91286689316021/360322609519199"
    [] q = "13/32" -> "-95631634675663/403165195057803"
    [] q = "5/12" -> "-20770293492226/98704804389443"
    [] q = "21/50" -> "-121648215266554/602536623687007"
    [] q = "3/7" -> "-163231104324651/906777153773495"
    [] q = "7/16" -> "-140781676865504/894927621822847"
    [] q = "11/25" -> "-65860703141519/436252536153140"
    [] q = "4/9" -> "-21235891736816/151999472528313"
    [] q = "9/20" -> "-66209828997962/526890970493275"
    [] q = "23/50" -> "-35527004157775/353735816783943"
    [] q = "7/15" -> "-80945689827364/967651070057085"
    [] q = "15/32" -> "-50974299308845/650079464871758"
    [] q = "12/25" -> "-7115399187455/141872199270832"
    [] q = "1/2" -> "0"
    [] q = "13/25" -> "7115399187455/141872199270832"
    [] q = "17/32" -> "50974299308845/650079464871758"
    [] q = "8/15" -> "80945689827364/967651070057085"
    [] q = "27/50" -> "51148802241163/509279174172599"
    [] q = "11/20" -> "79076977899181/629286410485325"
    [] q = "5/9" -> "21235891736816/151999472528313"
    [] q = "14/25" -> "128458577684109/850892529721406"
    [] q = "9/16" -> "140781676865504/894927621822847"
    [] q = "4/7" -> "164687452964377/914867423577749"
    [] q = "29/50" -> "169864824631511/841358647904441"
    [] q = "7/12" -> "205284312926423/975554243333525"
    [] q = "19/32" -> "95631634675663/403165195057803"
    [] q = "3/5" -> "91286689316021/360322609519199"
    [] q = "31/50" -> "302083033327429/988877353652555"
    [] q = "5/8" -> "1420653481646/4458499615273"
    [] q = "16/25" -> "240063641909712/669710567656475"
    [] q = "13/20" -> "308128662975909/799668561207413"
    [] q = "21/32" -> "226446655536585/562949953421312"
    [] q = "33/50" -> "245639783457619/595543615717329"
    [] q = "2/3" -> "425860244565013/988700380174636"
    [] q = "17/25" -> "324028514812549/692814511018695"
    [] q = "11/16" -> "141893566014039/290303629200203"
    [] q = "7/10" -> "135404688586622/258208535852459"
    [] q = "5/7" -> "490882824062540/867362568908699"
    [] q = "23/32" -> "531473505775203/917706769565800"
    [] q = "18/25" -> "19644882207563/33705358939753"
    [] q = "11/15" -> "530331041801233/851355180948875"
    [] q = "37/50" -> "616283698542637/957935960024845"
    [] q = "3/4" -> "22926803084401/33991329116174"
    [] q = "19/25" -> "426598379253686/603988151392665"
    [] q = "7/9" -> "272934056932564/356911997178167"
    [] q = "39/50" -> "492580203942626/637897607608689"
    [] q = "25/32" -> "753363775965007/970302242496617"
    [] q = "4/5" -> "383619498488199/455810147350523"
    [] q = "13/16" -> "239241157119230/269674897216323"
    [] q = "41/50" -> "734366119868654/802265816800257"
    [] q = "5/6" -> "480136841558782/496305704134269"
    [] q = "21/25" -> "559830019032387/562949953421312"
    [] q = "27/32" -> "133268903523548/131950693760283"
    [] q = "17/20" -> "1017502117639521/981734212689235"
    [] q = "6/7" -> "401692204555977/376267605344477"
    [] q = "43/50" -> "684704017301281/633797796107921"
    [] q = "13/15" -> "173653031089862/156335495514057"
    [] q = "7/8" -> "152620166414907/132672880968581"
    [] q = "22/25" -> "309282941725308/263222483702533"
    [] q = "8/9" -> "869466319836538/712303440286547"
    [] q = "9/10" -> "1256151221364970/980180006124969"
    [] q = "29/32" -> "296108819438183/224663407596993"
    [] q = "11/12" -> "1044389368387421/755165439911823"
    [] q = "23/25" -> "395492484714959/281474976710656"
    [] q = "14/15" -> "1482598246055526/987683783172295"
    [] q = "15/16" -> "23821329770563/15527677963935"
    [] q = "47/50" -> "1063712912073303/684159362990159"
    [] q = "19/20" -> "543425083315629/330378992033959"
    [] q = "24/25" -> "1484582420121625/848000360829846"
    [] q = "31/32" -> "1845335142576516/990660639274285"
    [] q = "49/50" -> "679106146727856/330666588896173"]
PhiInv(i, n) == Phi[RFrac(i, n)]
=============================================================================
