// A throwaway RSA key for the simulated servers; generated for this project, guards nothing.
const h = (s: string) => BigInt("0x" + s);
export const RSA = {
  n: h("b0cf4fd3fb0e32eb439393f0cd086ab5009c95148e9dd34293f7938861da3ee6551a6020196145f5f78c5ac4d858a17dc36995689eb9cab4e68d4b62bbc698a77a4845c42b442420ec8551281daee75a4afbcd6edf9eece493337c2881da0b4159c6bdb930cae63777129ae39ad004eaf261bed9b1939e3b0292897e63e2bd3fdd4a695aaad771dec902167532a95d3975e2793fae0a61246d26b03b4f7d13e35c50efd29164209d69878cab5deb1bad5fdcd0bf54acaddba07e5ff637f00a68785583cb803f73f7ceabb49755fa304d623bd29ac99e9d30723825ee355287b10ad7fcb149ef6f1bc8a38048c4364354caeb8a41f7ed0845793b3bd1e2a27b79"),
  e: h("10001"),
  d: h("9dbe77f4221a8ae74705158a5302dd60db48d7e0dd5485b4f29a816fbe0d9eec94a4d17a11eaad2643535f701bad077752ae9274229893f74d7265fd92961e7fdd2339cb48e6a46d1357e60e2a5d6f5f2962f9e79f6f04def14d8fc9fbfff2e6bd1809107e2da7b378728ae9e1a7119c23df7d0c6fd7c9e5cfe7b8efa0621c80afe83474f75f2d0ff039ac3760aafe49c1c4c275d40082f33faa1931f50c1033fb9fd2974434bec9ff3add8ef4a9ac9a7abcaea4725f6fe3b58331af0d2b97070b3a45c51029e6a95dea4221f1c9326ae3cc806c3d84c177a534beb109416c9bbf87ea18f674db981d4c0cf422a48192eb57a9f481e2ca5b1e10627c44ebe901"),
  p: h("ca241c703e7c1249ecd951d42067927ba86f3a0638d9c3df98c51ce4818f731bd04fcb40a4c2085f8d994a65f60a02f42943c29fcd0aa20e61779099bbc24c8638ded848ac0e45c51a23a77db2b83c671aff9e762472e72604659ae96511b09cfaeaea3018c10bb6addb70389e68d3dbc6ba3bd9870ee6cb98365f1b24139849"),
  q: h("dfeb6021a2722c7911d0143b2866a07cc68c360b803f7f15f85fae2b4ce87289186af73b70be8ee1c63a5e36dc2c5ced9da647c7d6253a5d4dd8fd76be11ca2aa3488922ac32457c3271d39ee9f89d7664d5d1fa650ce467c34fca1eb97e279725f7ccffdcf177dadc1e4c02981bd2e5e22de72ce344713025768551e11ea9b1"),
  dp: h("9032a872cdb0365fb3ece739ba9007e7dca4d3b0a2977dea2091e46581a2f24b5213c9fb684cde2a43d9a94008fee55285a947ca353bb3952ca45d6bbd8c0288f142cee9308bd1eba414f12372fd886148da369132b920f976c38079a456b53596ad43b861c03c79e996137ce04c096dcb5b08dcc942b1136596cbcb91b5c4b9"),
  dq: h("12f66de7ab481bf80cc8204e7a3766b3ea64895723ff3c95f1b8b8993624213ef6f0680b829ac0a2e214a351e60763bf43b08737a72cf3ea5ee35763ace8f8c3ef9bfef10ec01b1e4f6f504a8ee9dcfbdfc233cc0eaeaed112bb3914ad04bff98edf935ebfa93b4b2f84e94ef6eeb4477f85ffa3cf83464a9b8193fcc121c5a1"),
  qi: h("f48627edce035348629ab1e2e14575c1a92e9a8c7a113981b2d865f124ad75756a5beadf41588cb7ff945bd311aeb72a706804647796fe1abd067c1d75d8279d952d6fdc37c6effe4b50badadb2047c632470dd85228e85e03041885fd6b08541c74a091a7a2755aea491b6f4b2bfebc443c384cb457f0d446ecd8660e3669c"),
};
export const FINGERPRINT = 0x5ca1ab1e0ddba11n;
export const DH_PRIME = h("C71CAEB9C6B1C9048E6C522F70F13F73980D40238E3E21C14934D037563D930F48198A0AA7C14058229493D22530F4DBFA336F6E0AC925139543AED44CCE7C3720FD51F69458705AC68CD4FE6B6B13ABDC9746512969328454F18FAF8C595F642477FE96BB2A941D5BCD1D4AC8CC49880708FA9B378E3C4F3A9060BEE67CF9A4A4A695811051907E162753B56B0F6B410DBA74D8A84B2A14B3144E0EF1284754FD17ED950D5965B4B9DD46582DB1178D169C6BC465B0D6FF9CA3928FEF5B9AE4E418FC15E83EBEA0F87FA9FF5EED70050DED2849F47BF959D956850CE929851F0D8115F635B105EE2E4E15D04B2454BF6F4FADF034B10403119CD8E3B92FCC5B");
