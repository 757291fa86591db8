------------------------------ MODULE CodeTables -------------------------------
(* ISO 4217 currencies with their names, ISO 3166 countries with their names, and the legal tender of each country.  Letters outside
   ASCII are written as one question mark per byte. *)
EXTENDS TLC
CurrencyName ==
     "AED" :> "UAE Dirham" @@ "AFN" :> "Afghani" @@ "ALL" :> "Lek" @@ "AMD" :> "Armenian Dram" 
  @@ "ANG" :> "Netherlands Antillean Guilder" @@ "AOA" :> "Kwanza" @@ "ARS" :> "Argentine Peso" 
  @@ "AUD" :> "Australian Dollar" @@ "AWG" :> "Aruban Florin" @@ "AZN" :> "Azerbaijan Manat" @@ "BAM" :> "Convertible Mark" 
  @@ "BBD" :> "Barbados Dollar" @@ "BDT" :> "Taka" @@ "BGN" :> "Bulgarian Lev" @@ "BHD" :> "Bahraini Dinar" 
  @@ "BIF" :> "Burundi Franc" @@ "BMD" :> "Bermudian Dollar" @@ "BND" :> "Brunei Dollar" @@ "BOB" :> "Boliviano" 
  @@ "BOV" :> "Mvdol" @@ "BRL" :> "Brazilian Real" @@ "BSD" :> "Bahamian Dollar" @@ "BTN" :> "Ngultrum" @@ "BWP" :> "Pula" 
  @@ "BYN" :> "Belarusian Ruble" @@ "BZD" :> "Belize Dollar" @@ "CAD" :> "Canadian Dollar" @@ "CDF" :> "Congolese Franc" 
  @@ "CHE" :> "WIR Euro" @@ "CHF" :> "Swiss Franc" @@ "CHW" :> "WIR Franc" @@ "CLF" :> "Unidad de Fomento" 
  @@ "CLP" :> "Chilean Peso" @@ "CNY" :> "Yuan Renminbi" @@ "COP" :> "Colombian Peso" @@ "COU" :> "Unidad de Valor Real" 
  @@ "CRC" :> "Costa Rican Colon" @@ "CUC" :> "Peso Convertible" @@ "CUP" :> "Cuban Peso" @@ "CVE" :> "Cabo Verde Escudo" 
  @@ "CZK" :> "Czech Koruna" @@ "DJF" :> "Djibouti Franc" @@ "DKK" :> "Danish Krone" @@ "DOP" :> "Dominican Peso" 
  @@ "DZD" :> "Algerian Dinar" @@ "EGP" :> "Egyptian Pound" @@ "ERN" :> "Nakfa" @@ "ETB" :> "Ethiopian Birr" 
  @@ "EUR" :> "Euro" @@ "FJD" :> "Fiji Dollar" @@ "FKP" :> "Falkland Islands Pound" @@ "GBP" :> "Pound Sterling" 
  @@ "GEL" :> "Lari" @@ "GHS" :> "Ghana Cedi" @@ "GIP" :> "Gibraltar Pound" @@ "GMD" :> "Dalasi" @@ "GNF" :> "Guinean Franc" 
  @@ "GTQ" :> "Quetzal" @@ "GYD" :> "Guyana Dollar" @@ "HKD" :> "Hong Kong Dollar" @@ "HNL" :> "Lempira" @@ "HRK" :> "Kuna" 
  @@ "HTG" :> "Gourde" @@ "HUF" :> "Forint" @@ "IDR" :> "Rupiah" @@ "ILS" :> "New Israeli Sheqel" @@ "INR" :> "Indian Rupee" 
  @@ "IQD" :> "Iraqi Dinar" @@ "IRR" :> "Iranian Rial" @@ "ISK" :> "Iceland Krona" @@ "JMD" :> "Jamaican Dollar" 
  @@ "JOD" :> "Jordanian Dinar" @@ "JPY" :> "Yen" @@ "KES" :> "Kenyan Shilling" @@ "KGS" :> "Som" @@ "KHR" :> "Riel" 
  @@ "KMF" :> "Comorian Franc " @@ "KPW" :> "North Korean Won" @@ "KRW" :> "Won" @@ "KWD" :> "Kuwaiti Dinar" 
  @@ "KYD" :> "Cayman Islands Dollar" @@ "KZT" :> "Tenge" @@ "LAK" :> "Lao Kip" @@ "LBP" :> "Lebanese Pound" 
  @@ "LKR" :> "Sri Lanka Rupee" @@ "LRD" :> "Liberian Dollar" @@ "LSL" :> "Loti" @@ "LYD" :> "Libyan Dinar" 
  @@ "MAD" :> "Moroccan Dirham" @@ "MDL" :> "Moldovan Leu" @@ "MGA" :> "Malagasy Ariary" @@ "MKD" :> "Denar" 
  @@ "MMK" :> "Kyat" @@ "MNT" :> "Tugrik" @@ "MOP" :> "Pataca" @@ "MRU" :> "Ouguiya" @@ "MUR" :> "Mauritius Rupee" 
  @@ "MVR" :> "Rufiyaa" @@ "MWK" :> "Malawi Kwacha" @@ "MXN" :> "Mexican Peso" @@ "MXV" :> "Mexican Unidad de Inversion (UDI)" 
  @@ "MYR" :> "Malaysian Ringgit" @@ "MZN" :> "Mozambique Metical" @@ "NAD" :> "Namibia Dollar" @@ "NGN" :> "Naira" 
  @@ "NIO" :> "Cordoba Oro" @@ "NOK" :> "Norwegian Krone" @@ "NPR" :> "Nepalese Rupee" @@ "NZD" :> "New Zealand Dollar" 
  @@ "OMR" :> "Rial Omani" @@ "PAB" :> "Balboa" @@ "PEN" :> "Sol" @@ "PGK" :> "Kina" @@ "PHP" :> "Philippine Piso" 
  @@ "PKR" :> "Pakistan Rupee" @@ "PLN" :> "Zloty" @@ "PYG" :> "Guarani" @@ "QAR" :> "Qatari Rial" @@ "RON" :> "Romanian Leu" 
  @@ "RSD" :> "Serbian Dinar" @@ "RUB" :> "Russian Ruble" @@ "RWF" :> "Rwanda Franc" @@ "SAR" :> "Saudi Riyal" 
  @@ "SBD" :> "Solomon Islands Dollar" @@ "SCR" :> "Seychelles Rupee" @@ "SDG" :> "Sudanese Pound" @@ "SEK" :> "Swedish Krona" 
  @@ "SGD" :> "Singapore Dollar" @@ "SHP" :> "Saint Helena Pound" @@ "SLL" :> "Leone" @@ "SOS" :> "Somali Shilling" 
  @@ "SRD" :> "Surinam Dollar" @@ "SSP" :> "South Sudanese Pound" @@ "STN" :> "Dobra" @@ "SVC" :> "El Salvador Colon" 
  @@ "SYP" :> "Syrian Pound" @@ "SZL" :> "Lilangeni" @@ "THB" :> "Baht" @@ "TJS" :> "Somoni" 
  @@ "TMT" :> "Turkmenistan New Manat" @@ "TND" :> "Tunisian Dinar" @@ "TOP" :> "Pa???anga" @@ "TRY" :> "Turkish Lira" 
  @@ "TTD" :> "Trinidad and Tobago Dollar" @@ "TWD" :> "New Taiwan Dollar" @@ "TZS" :> "Tanzanian Shilling" 
  @@ "UAH" :> "Hryvnia" @@ "UGX" :> "Uganda Shilling" @@ "USD" :> "US Dollar" 
  @@ "UYI" :> "Uruguay Peso en Unidades Indexadas (URUIURUI)" @@ "UYU" :> "Peso Uruguayo" @@ "UZS" :> "Uzbekistan Sum" 
  @@ "VEF" :> "Bol??var" @@ "VND" :> "Dong" @@ "VUV" :> "Vatu" @@ "WST" :> "Tala" @@ "XAF" :> "CFA Franc BEAC" 
  @@ "XAG" :> "Silver" @@ "XAU" :> "Gold" @@ "XBA" :> "Bond Markets Unit European Composite Unit (EURCO)" 
  @@ "XBB" :> "Bond Markets Unit European Monetary Unit (E.M.U.-6)" 
  @@ "XBC" :> "Bond Markets Unit European Unit of Account 9 (E.U.A.-9)" 
  @@ "XBD" :> "Bond Markets Unit European Unit of Account 17 (E.U.A.-17)" @@ "XCD" :> "East Caribbean Dollar" 
  @@ "XDR" :> "SDR (Special Drawing Right)" @@ "XOF" :> "CFA Franc BCEAO" @@ "XPD" :> "Palladium" @@ "XPF" :> "CFP Franc" 
  @@ "XPT" :> "Platinum" @@ "XSU" :> "Sucre" @@ "XUA" :> "ADB Unit of Account" @@ "YER" :> "Yemeni Rial" @@ "ZAR" :> "Rand" 
  @@ "ZMW" :> "Zambian Kwacha" @@ "ZWL" :> "Zimbabwe Dollar" 
Thousandths == {"BHD", "IQD", "JOD", "KWD", "LYD", "OMR", "TND"}
Whole == {"BIF", "CLP", "DJF", "GNF", "ISK", "JPY", "KMF", "KRW", "PYG", "RWF", "UGX", "UYI", "VND", "VUV", "XAF", "XOF", "XPF"}
TenThousandths == {"CLF"}
Subunits(c) == IF c \in Whole THEN 1 ELSE IF c \in Thousandths THEN 1000 ELSE IF c \in TenThousandths THEN 10000 ELSE 100
CountryName ==
     "AD" :> "Andorra" @@ "AE" :> "United Arab Emirates" @@ "AF" :> "Afghanistan" @@ "AG" :> "Antigua and Barbuda" 
  @@ "AI" :> "Anguilla" @@ "AL" :> "Albania" @@ "AM" :> "Armenia" @@ "AO" :> "Angola" @@ "AQ" :> "Antarctica" 
  @@ "AR" :> "Argentina" @@ "AS" :> "American Samoa" @@ "AT" :> "Austria" @@ "AU" :> "Australia" @@ "AW" :> "Aruba" 
  @@ "AX" :> "??land Islands" @@ "AZ" :> "Azerbaijan" @@ "BA" :> "Bosnia and Herzegovina" @@ "BB" :> "Barbados" 
  @@ "BD" :> "Bangladesh" @@ "BE" :> "Belgium" @@ "BF" :> "Burkina Faso" @@ "BG" :> "Bulgaria" @@ "BH" :> "Bahrain" 
  @@ "BI" :> "Burundi" @@ "BJ" :> "Benin" @@ "BL" :> "Saint Barth??lemy" @@ "BM" :> "Bermuda" @@ "BN" :> "Brunei Darussalam" 
  @@ "BO" :> "Plurinational State of Bolivia" @@ "BQ" :> "Bonaire, Sint Eustatius and Saba" @@ "BR" :> "Brazil" 
  @@ "BS" :> "Bahamas" @@ "BT" :> "Bhutan" @@ "BV" :> "Bouvet Island" @@ "BW" :> "Botswana" @@ "BY" :> "Belarus" 
  @@ "BZ" :> "Belize" @@ "CA" :> "Canada" @@ "CC" :> "Cocos (Keeling) Islands" 
  @@ "CD" :> "the Democratic Republic of the Congo" @@ "CF" :> "Central African Republic" @@ "CG" :> "Congo" 
  @@ "CH" :> "Switzerland" @@ "CI" :> "C??te d'Ivoire" @@ "CK" :> "Cook Islands" @@ "CL" :> "Chile" @@ "CM" :> "Cameroon" 
  @@ "CN" :> "China" @@ "CO" :> "Colombia" @@ "CR" :> "Costa Rica" @@ "CU" :> "Cuba" @@ "CV" :> "Cabo Verde" 
  @@ "CW" :> "Cura??ao" @@ "CX" :> "Christmas Island" @@ "CY" :> "Cyprus" @@ "CZ" :> "Czechia" @@ "DE" :> "Germany" 
  @@ "DJ" :> "Djibouti" @@ "DK" :> "Denmark" @@ "DM" :> "Dominica" @@ "DO" :> "Dominican Republic" @@ "DZ" :> "Algeria" 
  @@ "EC" :> "Ecuador" @@ "EE" :> "Estonia" @@ "EG" :> "Egypt" @@ "EH" :> "Western Sahara" @@ "ER" :> "Eritrea" 
  @@ "ES" :> "Spain" @@ "ET" :> "Ethiopia" @@ "FI" :> "Finland" @@ "FJ" :> "Fiji" @@ "FK" :> "Falkland Islands (Malvinas)" 
  @@ "FM" :> "Federated States of Micronesia" @@ "FO" :> "Faroe Islands" @@ "FR" :> "France" @@ "GA" :> "Gabon" 
  @@ "GB" :> "United Kingdom of Great Britain and Northern Ireland" @@ "GD" :> "Grenada" @@ "GE" :> "Georgia" 
  @@ "GF" :> "French Guiana" @@ "GG" :> "Guernsey" @@ "GH" :> "Ghana" @@ "GI" :> "Gibraltar" @@ "GL" :> "Greenland" 
  @@ "GM" :> "Gambia" @@ "GN" :> "Guinea" @@ "GP" :> "Guadeloupe" @@ "GQ" :> "Equatorial Guinea" @@ "GR" :> "Greece" 
  @@ "GS" :> "South Georgia and the South Sandwich Islands" @@ "GT" :> "Guatemala" @@ "GU" :> "Guam" 
  @@ "GW" :> "Guinea-Bissau" @@ "GY" :> "Guyana" @@ "HK" :> "Hong Kong" @@ "HM" :> "Heard Island and McDonald Islands" 
  @@ "HN" :> "Honduras" @@ "HR" :> "Croatia" @@ "HT" :> "Haiti" @@ "HU" :> "Hungary" @@ "ID" :> "Indonesia" 
  @@ "IE" :> "Ireland" @@ "IL" :> "Israel" @@ "IM" :> "Isle of Man" @@ "IO" :> "British Indian Ocean Territory" 
  @@ "IQ" :> "Iraq" @@ "IR" :> "Islamic Republic of Iran" @@ "IS" :> "Iceland" @@ "IT" :> "Italy" @@ "JE" :> "Jersey" 
  @@ "JM" :> "Jamaica" @@ "JO" :> "Jordan" @@ "JP" :> "Japan" @@ "KE" :> "Kenya" @@ "KG" :> "Kyrgyzstan" @@ "KH" :> "Cambodia" 
  @@ "KI" :> "Kiribati" @@ "KM" :> "Comoros" @@ "KN" :> "Saint Kitts and Nevis" 
  @@ "KP" :> "Democratic People's Republic of Korea" @@ "KR" :> "Republic of Korea" @@ "KW" :> "Kuwait" 
  @@ "KY" :> "Cayman Islands" @@ "KZ" :> "Kazakhstan" @@ "LA" :> "Lao People's Democratic Republic" @@ "LB" :> "Lebanon" 
  @@ "LC" :> "Saint Lucia" @@ "LI" :> "Liechtenstein" @@ "LK" :> "Sri Lanka" @@ "LR" :> "Liberia" @@ "LS" :> "Lesotho" 
  @@ "LT" :> "Lithuania" @@ "LU" :> "Luxembourg" @@ "LV" :> "Latvia" @@ "LY" :> "Libya" @@ "MA" :> "Morocco" 
  @@ "MC" :> "Monaco" @@ "MD" :> "Republic of Moldova" @@ "ME" :> "Montenegro" @@ "MF" :> "Saint Martin (French part)" 
  @@ "MG" :> "Madagascar" @@ "MH" :> "Marshall Islands" @@ "MK" :> "the former Yugoslav Republic of Macedonia" 
  @@ "ML" :> "Mali" @@ "MM" :> "Myanmar" @@ "MN" :> "Mongolia" @@ "MO" :> "Macao" @@ "MP" :> "Northern Mariana Islands" 
  @@ "MQ" :> "Martinique" @@ "MR" :> "Mauritania" @@ "MS" :> "Montserrat" @@ "MT" :> "Malta" @@ "MU" :> "Mauritius" 
  @@ "MV" :> "Maldives" @@ "MW" :> "Malawi" @@ "MX" :> "Mexico" @@ "MY" :> "Malaysia" @@ "MZ" :> "Mozambique" 
  @@ "NA" :> "Namibia" @@ "NC" :> "New Caledonia" @@ "NE" :> "Niger" @@ "NF" :> "Norfolk Island" @@ "NG" :> "Nigeria" 
  @@ "NI" :> "Nicaragua" @@ "NL" :> "Netherlands" @@ "NO" :> "Norway" @@ "NP" :> "Nepal" @@ "NR" :> "Nauru" @@ "NU" :> "Niue" 
  @@ "NZ" :> "New Zealand" @@ "OM" :> "Oman" @@ "PA" :> "Panama" @@ "PE" :> "Peru" @@ "PF" :> "French Polynesia" 
  @@ "PG" :> "Papua New Guinea" @@ "PH" :> "Philippines" @@ "PK" :> "Pakistan" @@ "PL" :> "Poland" 
  @@ "PM" :> "Saint Pierre and Miquelon" @@ "PN" :> "Pitcairn" @@ "PR" :> "Puerto Rico" @@ "PS" :> "State of Palestine" 
  @@ "PT" :> "Portugal" @@ "PW" :> "Palau" @@ "PY" :> "Paraguay" @@ "QA" :> "Qatar" @@ "RE" :> "R??union" @@ "RO" :> "Romania" 
  @@ "RS" :> "Serbia" @@ "RU" :> "Russian Federation" @@ "RW" :> "Rwanda" @@ "SA" :> "Saudi Arabia" 
  @@ "SB" :> "Solomon Islands" @@ "SC" :> "Seychelles" @@ "SD" :> "Sudan" @@ "SE" :> "Sweden" @@ "SG" :> "Singapore" 
  @@ "SH" :> "Saint Helena, Ascension and Tristan da Cunha" @@ "SI" :> "Slovenia" @@ "SJ" :> "Svalbard and Jan Mayen" 
  @@ "SK" :> "Slovakia" @@ "SL" :> "Sierra Leone" @@ "SM" :> "San Marino" @@ "SN" :> "Senegal" @@ "SO" :> "Somalia" 
  @@ "SR" :> "Suriname" @@ "SS" :> "South Sudan" @@ "ST" :> "Sao Tome and Principe" @@ "SV" :> "El Salvador" 
  @@ "SX" :> "Sint Maarten (Dutch part)" @@ "SY" :> "Syrian Arab Republic" @@ "SZ" :> "Swaziland" 
  @@ "TC" :> "Turks and Caicos Islands" @@ "TD" :> "Chad" @@ "TF" :> "French Southern Territories" @@ "TG" :> "Togo" 
  @@ "TH" :> "Thailand" @@ "TJ" :> "Tajikistan" @@ "TK" :> "Tokelau" @@ "TL" :> "Timor-Leste" @@ "TM" :> "Turkmenistan" 
  @@ "TN" :> "Tunisia" @@ "TO" :> "Tonga" @@ "TR" :> "Turkey" @@ "TT" :> "Trinidad and Tobago" @@ "TV" :> "Tuvalu" 
  @@ "TW" :> "Taiwan, Province of China" @@ "TZ" :> "United Republic of Tanzania" @@ "UA" :> "Ukraine" @@ "UG" :> "Uganda" 
  @@ "UM" :> "United States Minor Outlying Islands" @@ "US" :> "United States of America" @@ "UY" :> "Uruguay" 
  @@ "UZ" :> "Uzbekistan" @@ "VA" :> "Holy See" @@ "VC" :> "Saint Vincent and the Grenadines" 
  @@ "VE" :> "Bolivarian Republic of Venezuela" @@ "VG" :> "British Virgin Islands" @@ "VI" :> "U.S. Virgin Islands" 
  @@ "VN" :> "Viet Nam" @@ "VU" :> "Vanuatu" @@ "WF" :> "Wallis and Futuna" @@ "WS" :> "Samoa" @@ "YE" :> "Yemen" 
  @@ "YT" :> "Mayotte" @@ "ZA" :> "South Africa" @@ "ZM" :> "Zambia" @@ "ZW" :> "Zimbabwe" 
Tender ==
     "AF" :> "AFN" @@ "AL" :> "ALL" @@ "DZ" :> "DZD" @@ "AS" :> "USD" @@ "AD" :> "EUR" @@ "AO" :> "AOA" @@ "AI" :> "XCD" 
  @@ "AG" :> "XCD" @@ "AR" :> "ARS" @@ "AM" :> "AMD" @@ "AW" :> "AWG" @@ "AU" :> "AUD" @@ "AT" :> "EUR" @@ "AZ" :> "AZN" 
  @@ "BS" :> "BSD" @@ "BH" :> "BHD" @@ "BD" :> "BDT" @@ "BB" :> "BBD" @@ "BY" :> "BYN" @@ "BE" :> "EUR" @@ "BZ" :> "BZD" 
  @@ "BJ" :> "XOF" @@ "BM" :> "BMD" @@ "BT" :> "BTN" @@ "BO" :> "BOB" @@ "BQ" :> "USD" @@ "BA" :> "BAM" @@ "BW" :> "BWP" 
  @@ "BV" :> "NOK" @@ "BR" :> "BRL" @@ "IO" :> "USD" @@ "VG" :> "USD" @@ "BN" :> "BND" @@ "BG" :> "BGN" @@ "BF" :> "XOF" 
  @@ "BI" :> "BIF" @@ "CV" :> "CVE" @@ "KH" :> "KHR" @@ "CM" :> "XAF" @@ "CA" :> "CAD" @@ "KY" :> "KYD" @@ "CF" :> "XAF" 
  @@ "TD" :> "XAF" @@ "CL" :> "CLP" @@ "CN" :> "CNY" @@ "HK" :> "HKD" @@ "MO" :> "MOP" @@ "CX" :> "AUD" @@ "CC" :> "AUD" 
  @@ "CO" :> "COP" @@ "KM" :> "KMF" @@ "CG" :> "XAF" @@ "CK" :> "NZD" @@ "CR" :> "CRC" @@ "HR" :> "HRK" @@ "CU" :> "CUP" 
  @@ "CW" :> "ANG" @@ "CY" :> "EUR" @@ "CZ" :> "CZK" @@ "CI" :> "XOF" @@ "KP" :> "KPW" @@ "CD" :> "CDF" @@ "DK" :> "DKK" 
  @@ "DJ" :> "DJF" @@ "DM" :> "XCD" @@ "DO" :> "DOP" @@ "EC" :> "USD" @@ "EG" :> "EGP" @@ "SV" :> "SVC" @@ "GQ" :> "XAF" 
  @@ "ER" :> "ERN" @@ "EE" :> "EUR" @@ "ET" :> "ETB" @@ "FO" :> "DKK" @@ "FJ" :> "FJD" @@ "FI" :> "EUR" @@ "FR" :> "EUR" 
  @@ "GF" :> "EUR" @@ "PF" :> "XPF" @@ "TF" :> "EUR" @@ "GA" :> "XAF" @@ "GM" :> "GMD" @@ "GE" :> "GEL" @@ "DE" :> "EUR" 
  @@ "GH" :> "GHS" @@ "GI" :> "GIP" @@ "GR" :> "EUR" @@ "GL" :> "DKK" @@ "GD" :> "XCD" @@ "GP" :> "EUR" @@ "GU" :> "USD" 
  @@ "GT" :> "GTQ" @@ "GG" :> "GBP" @@ "GN" :> "GNF" @@ "GW" :> "XOF" @@ "GY" :> "GYD" @@ "HT" :> "HTG" @@ "HM" :> "AUD" 
  @@ "VA" :> "EUR" @@ "HN" :> "HNL" @@ "HU" :> "HUF" @@ "IS" :> "ISK" @@ "ID" :> "IDR" @@ "IR" :> "IRR" @@ "IQ" :> "IQD" 
  @@ "IE" :> "EUR" @@ "IM" :> "GBP" @@ "IL" :> "ILS" @@ "IT" :> "EUR" @@ "JM" :> "JMD" @@ "JP" :> "JPY" @@ "JE" :> "GBP" 
  @@ "JO" :> "JOD" @@ "KZ" :> "KZT" @@ "KE" :> "KES" @@ "KI" :> "AUD" @@ "KW" :> "KWD" @@ "KG" :> "KGS" @@ "LA" :> "LAK" 
  @@ "LV" :> "EUR" @@ "LB" :> "LBP" @@ "LS" :> "LSL" @@ "LR" :> "LRD" @@ "LY" :> "LYD" @@ "LI" :> "CHF" @@ "LT" :> "EUR" 
  @@ "LU" :> "EUR" @@ "MG" :> "MGA" @@ "MW" :> "MWK" @@ "MY" :> "MYR" @@ "MV" :> "MVR" @@ "ML" :> "XOF" @@ "MT" :> "EUR" 
  @@ "MH" :> "USD" @@ "MQ" :> "EUR" @@ "MR" :> "MRU" @@ "MU" :> "MUR" @@ "YT" :> "EUR" @@ "MX" :> "MXN" @@ "FM" :> "USD" 
  @@ "MC" :> "EUR" @@ "MN" :> "MNT" @@ "ME" :> "EUR" @@ "MS" :> "XCD" @@ "MA" :> "MAD" @@ "MZ" :> "MZN" @@ "MM" :> "MMK" 
  @@ "NA" :> "NAD" @@ "NR" :> "AUD" @@ "NP" :> "NPR" @@ "NL" :> "EUR" @@ "NC" :> "XPF" @@ "NZ" :> "NZD" @@ "NI" :> "NIO" 
  @@ "NE" :> "XOF" @@ "NG" :> "NGN" @@ "NU" :> "NZD" @@ "NF" :> "AUD" @@ "MP" :> "USD" @@ "NO" :> "NOK" @@ "OM" :> "OMR" 
  @@ "PK" :> "PKR" @@ "PW" :> "USD" @@ "PA" :> "PAB" @@ "PG" :> "PGK" @@ "PY" :> "PYG" @@ "PE" :> "PEN" @@ "PH" :> "PHP" 
  @@ "PN" :> "NZD" @@ "PL" :> "PLN" @@ "PT" :> "EUR" @@ "PR" :> "USD" @@ "QA" :> "QAR" @@ "KR" :> "KRW" @@ "MD" :> "MDL" 
  @@ "RO" :> "RON" @@ "RU" :> "RUB" @@ "RW" :> "RWF" @@ "RE" :> "EUR" @@ "BL" :> "EUR" @@ "SH" :> "SHP" @@ "KN" :> "XCD" 
  @@ "LC" :> "XCD" @@ "MF" :> "EUR" @@ "PM" :> "EUR" @@ "VC" :> "XCD" @@ "WS" :> "WST" @@ "SM" :> "EUR" @@ "ST" :> "STN" 
  @@ "SA" :> "SAR" @@ "SN" :> "XOF" @@ "RS" :> "RSD" @@ "SC" :> "SCR" @@ "SL" :> "SLL" @@ "SG" :> "SGD" @@ "SX" :> "ANG" 
  @@ "SK" :> "EUR" @@ "SI" :> "EUR" @@ "SB" :> "SBD" @@ "SO" :> "SOS" @@ "ZA" :> "ZAR" @@ "SS" :> "SSP" @@ "ES" :> "EUR" 
  @@ "LK" :> "LKR" @@ "SD" :> "SDG" @@ "SR" :> "SRD" @@ "SJ" :> "NOK" @@ "SZ" :> "SZL" @@ "SE" :> "SEK" @@ "CH" :> "CHF" 
  @@ "SY" :> "SYP" @@ "TJ" :> "TJS" @@ "TH" :> "THB" @@ "MK" :> "MKD" @@ "TL" :> "USD" @@ "TG" :> "XOF" @@ "TK" :> "NZD" 
  @@ "TO" :> "TOP" @@ "TT" :> "TTD" @@ "TN" :> "TND" @@ "TR" :> "TRY" @@ "TM" :> "TMT" @@ "TC" :> "USD" @@ "TV" :> "AUD" 
  @@ "UG" :> "UGX" @@ "UA" :> "UAH" @@ "AE" :> "AED" @@ "GB" :> "GBP" @@ "TZ" :> "TZS" @@ "UM" :> "USD" @@ "VI" :> "USD" 
  @@ "US" :> "USD" @@ "UY" :> "UYU" @@ "UZ" :> "UZS" @@ "VU" :> "VUV" @@ "VE" :> "VEF" @@ "VN" :> "VND" @@ "WF" :> "XPF" 
  @@ "EH" :> "MAD" @@ "YE" :> "YER" @@ "ZM" :> "ZMW" @@ "ZW" :> "ZWL" @@ "AX" :> "EUR" 
================================================================================
