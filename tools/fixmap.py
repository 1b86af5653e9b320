"""Which property each repair belongs to (written into known_findings.txt by tools/gen.py)."""
FIX = {
 '28a26b9': 'F02', 'd01ee2f': 'F01', '95c967f': 'F05', 'a425e5e': 'F05', 'a3318b7': 'F05', '85599e9': 'F04',
 '66c42b8': 'N01', '9036fc2': 'N04', '86600e5': 'N04', '6ecdfcf': 'N03', '9425b0e': 'N03', 'fa70edf': 'N05', '86c703b': 'N05',
 '67b549e': 'V01', '0a08720': 'V01', '99ac7ba': 'V04', 'a3d8910': 'V02', '4fff53b': 'P02', '96d04d3': 'P01', 'd72f1b0': 'P01',
 '7f00d0c': 'P02', '7cea6ce': 'P02', '6b39b8c': 'P03', '371aa95': 'P02', 'a3508b2': 'P03', 'db4e433': 'P01', 'aa1a938': 'P03',
 '590e7de': 'P01', '43c0896': 'P01', 'c7a5d97': 'P03', 'e57ce90': 'P01', '21d71a9': 'P03', '59734ad': 'P03', '94b5fd6': 'P03',
 '3c1d32c': 'P03', '075c40c': 'F07', '888e098': 'F08', '79089d6': 'F10', '9ded0ff': 'F05', 'bedd748': 'F04', '9cefb43': 'F01',
 '232823f': 'F01', '4326719': 'F02', '8a6d796': 'F02', 'e246b24': 'F05', 'ec714a1': 'F03', '8fceea1': 'N01', 'ce57cd2': 'N04',
 '9cd401f': 'L01', '38e5c7d': 'C02', '1e7666f': 'C07', '2581c7d': 'C07',
 '38fce20': 'P02', 'ace9434': 'P01', '5247aff': 'P01', 'ee78bce': 'P01', '5ff78d7': 'P01', '65cce0a': 'P03', '7599e02': 'P03', 'aa1dbce': 'P03',
 '6d8af33': 'V03', '2e23e59': 'N01', '8f479ba': 'N01', '87aaa89': 'N04', '3244fba': 'N04', '056a20b': 'C03', '01f4e5c': 'C02',
 '9d0e3ed': 'C03', '2533047': 'C03', '54f153f': 'C03', '7ee5f4a': 'C08', 'e07d0bc': 'C03', '4bc2d2e': 'C04', '6233199': 'C03',
 '8c4eb21': 'C01', '512face': 'C07', 'b6a38cd': 'C10', 'e7157d5': 'C10', '871ee22': 'C08', 'ae8607c': 'F08', '0f90fb9': 'F08', 'dd3c57f': 'F08',
 '7372fef': 'F09', '9383df8': 'F09', 'cbc26af': 'F07', 'da67302': 'F09', '6d14462': 'F09', 'c486664': 'F07',
    'aa84cd0': 'F10', 'ea83902': 'F10',
    '661aa71': 'L01', 'ced9173': 'L01', '7d82296': 'L01', '34fc59b': 'L01', '74dd4a3': 'L01', 'da12c26': 'L01', '5c4c578': 'L01',
}
