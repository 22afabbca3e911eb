PRIMES = [
    244965182546375981940118511408896020959,
    170288281374329731766168159090304467639,
    331942332698097676349742277675779783599,
    200486400005666514884286252759028095239,
    340189169354754551825245564484052648479,
    237885896598760329534468119806140968639,
    292296247701767511183469375677822505079,
    239807999944502397034723637474908927559,
    323096211025890257658673731013065174599,
    235340054254719100939313398680625616879,
    201455072666970098541011176052420124719,
    223139554064162761337936348198559555599,
    258853013863202911000393723960796883959,
    265074156445940600644667740654804128719,
    283918414775380215076854930941173293119,
    261990793133499197671132750834305206639,
    217178916301396199822951207135748850559,
    183088226875709604679085758928683051679,
    173412572020484385615750274404561238079,
    246752784873006700541545449567556947239,
    334494115905375483772367751289584050759,
    335011399086617793730066816154029677719,
    338064813594402442966726940530236209759,
    307740108007927120148355515900671719359,
    173980065006711416116648952250075444599,
    193896722577002693387985599838620621279,
    218945912171911222653265164934952667359,
    288969412123831743925478195164613998559,
    201625429806270788053917315086918088119,
    302483546078908963938058065549666603119,
    219040164623357392855661818999267108919,
    289230992349318887694891147908276126639,
    183651095022488511923345249937801891719,
    307441684285682752619736748925682513719,
    259898723572050697674861162634662986639,
    243260543138658186630428161876029011159,
    257269334866187836044720018825700320839,
    221257408183798055154808169559766373639,
    201843864011065105485655404006928821239,
    323592162328379104131522937309136892839,
    288761471542257203588904954648556211399,
    186763443957817352854966293542714068799,
    262067833754696097666898764293934981719,
    277828687314058467396226419220291548719,
    299063935414322568061391998333513726079,
    181282229087693445405880550589072047639,
    318300489074597718249717942111945772919,
    230959959752449641252825132059911371959,
]
