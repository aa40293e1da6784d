package main

// countryTable is a small gazetteer written independently of the library: the code, a piece
// of the name and a place in the country.
var countryTable = map[string]struct {
	name string
	at   pt
}{
	"AE": {"United Arab", pt{Lat: 24.45, Lon: 54.38}},
	"AF": {"Afghanistan", pt{Lat: 34.53, Lon: 69.17}},
	"AL": {"Albania", pt{Lat: 41.33, Lon: 19.82}},
	"AM": {"Armenia", pt{Lat: 40.18, Lon: 44.51}},
	"AO": {"Angola", pt{Lat: -8.84, Lon: 13.23}},
	"AQ": {"Antarctica", pt{Lat: -77.85, Lon: 166.67}},
	"AR": {"Argentina", pt{Lat: -34.6, Lon: -58.38}},
	"AT": {"Austria", pt{Lat: 48.21, Lon: 16.37}},
	"AU": {"Australia", pt{Lat: -35.28, Lon: 149.13}},
	"AZ": {"Azerbaijan", pt{Lat: 40.41, Lon: 49.87}},
	"BA": {"Bosnia and", pt{Lat: 43.86, Lon: 18.41}},
	"BD": {"Bangladesh", pt{Lat: 23.81, Lon: 90.41}},
	"BE": {"Belgium", pt{Lat: 50.85, Lon: 4.35}},
	"BF": {"Burkina Fas", pt{Lat: 12.37, Lon: -1.52}},
	"BG": {"Bulgaria", pt{Lat: 42.7, Lon: 23.32}},
	"BI": {"Burundi", pt{Lat: -3.38, Lon: 29.36}},
	"BJ": {"Benin", pt{Lat: 6.5, Lon: 2.6}},
	"BN": {"Brunei", pt{Lat: 4.89, Lon: 114.94}},
	"BO": {"Bolivia", pt{Lat: -16.5, Lon: -68.15}},
	"BR": {"Brazil", pt{Lat: -15.79, Lon: -47.88}},
	"BS": {"Bahamas", pt{Lat: 25.05, Lon: -77.35}},
	"BT": {"Bhutan", pt{Lat: 27.47, Lon: 89.64}},
	"BW": {"Botswana", pt{Lat: -24.63, Lon: 25.92}},
	"BY": {"Belarus", pt{Lat: 53.9, Lon: 27.57}},
	"BZ": {"Belize", pt{Lat: 17.25, Lon: -88.77}},
	"CA": {"Canada", pt{Lat: 45.42, Lon: -75.7}},
	"CD": {"Kinshasa", pt{Lat: -4.44, Lon: 15.27}},
	"CF": {"Central Afr", pt{Lat: 4.39, Lon: 18.56}},
	"CG": {"Brazzaville", pt{Lat: -4.26, Lon: 15.24}},
	"CH": {"Switzerland", pt{Lat: 46.95, Lon: 7.45}},
	"CI": {"Ivory Coast", pt{Lat: 6.83, Lon: -5.29}},
	"CL": {"Chile", pt{Lat: -33.45, Lon: -70.67}},
	"CM": {"Cameroon", pt{Lat: 3.85, Lon: 11.5}},
	"CN": {"China", pt{Lat: 39.9, Lon: 116.41}},
	"CO": {"Colombia", pt{Lat: 4.71, Lon: -74.07}},
	"CR": {"Costa Rica", pt{Lat: 9.93, Lon: -84.08}},
	"CU": {"Cuba", pt{Lat: 23.11, Lon: -82.37}},
	"CY": {"Cyprus", pt{Lat: 34.68, Lon: 33.04}},
	"CZ": {"Czech Repub", pt{Lat: 50.08, Lon: 14.44}},
	"DE": {"Germany", pt{Lat: 52.52, Lon: 13.4}},
	"DJ": {"Djibouti", pt{Lat: 11.57, Lon: 43.15}},
	"DK": {"Denmark", pt{Lat: 55.68, Lon: 12.57}},
	"DO": {"Dominican R", pt{Lat: 18.49, Lon: -69.93}},
	"DZ": {"Algeria", pt{Lat: 36.75, Lon: 3.06}},
	"EC": {"Ecuador", pt{Lat: -0.18, Lon: -78.47}},
	"EE": {"Estonia", pt{Lat: 59.44, Lon: 24.75}},
	"EG": {"Egypt", pt{Lat: 30.04, Lon: 31.24}},
	"ER": {"Eritrea", pt{Lat: 15.32, Lon: 38.93}},
	"ES": {"Spain", pt{Lat: 40.42, Lon: -3.7}},
	"ET": {"Ethiopia", pt{Lat: 9.03, Lon: 38.74}},
	"FI": {"Finland", pt{Lat: 60.17, Lon: 24.94}},
	"FJ": {"Fiji", pt{Lat: -18.14, Lon: 178.44}},
	"FK": {"Falkland Is", pt{Lat: -51.69, Lon: -57.86}},
	"FR": {"France", pt{Lat: 48.86, Lon: 2.35}},
	"GA": {"Gabon", pt{Lat: 0.42, Lon: 9.47}},
	"GB": {"United King", pt{Lat: 51.51, Lon: -0.13}},
	"GE": {"Georgia", pt{Lat: 41.72, Lon: 44.78}},
	"GH": {"Ghana", pt{Lat: 5.6, Lon: -0.19}},
	"GL": {"Greenland", pt{Lat: 64.18, Lon: -51.72}},
	"GM": {"Gambia", pt{Lat: 13.45, Lon: -16.58}},
	"GN": {"Guinea", pt{Lat: 9.64, Lon: -13.58}},
	"GQ": {"Guinea", pt{Lat: 1.86, Lon: 9.77}},
	"GR": {"Greece", pt{Lat: 37.98, Lon: 23.73}},
	"GT": {"Guatemala", pt{Lat: 14.63, Lon: -90.51}},
	"GW": {"Bissau", pt{Lat: 11.86, Lon: -15.6}},
	"GY": {"Guyana", pt{Lat: 6.8, Lon: -58.16}},
	"HN": {"Honduras", pt{Lat: 14.07, Lon: -87.19}},
	"HR": {"Croatia", pt{Lat: 45.81, Lon: 15.98}},
	"HT": {"Haiti", pt{Lat: 18.59, Lon: -72.31}},
	"HU": {"Hungary", pt{Lat: 47.5, Lon: 19.04}},
	"ID": {"Indonesia", pt{Lat: -6.2, Lon: 106.85}},
	"IE": {"Ireland", pt{Lat: 53.35, Lon: -6.26}},
	"IL": {"Israel", pt{Lat: 31.77, Lon: 35.21}},
	"IN": {"India", pt{Lat: 28.61, Lon: 77.21}},
	"IQ": {"Iraq", pt{Lat: 33.31, Lon: 44.36}},
	"IR": {"Iran", pt{Lat: 35.69, Lon: 51.39}},
	"IS": {"Iceland", pt{Lat: 64.15, Lon: -21.94}},
	"IT": {"Italy", pt{Lat: 41.9, Lon: 12.5}},
	"JM": {"Jamaica", pt{Lat: 18.0, Lon: -76.79}},
	"JO": {"Jordan", pt{Lat: 31.95, Lon: 35.93}},
	"JP": {"Japan", pt{Lat: 35.68, Lon: 139.69}},
	"KE": {"Kenya", pt{Lat: -1.29, Lon: 36.82}},
	"KG": {"Kyrgyzstan", pt{Lat: 42.87, Lon: 74.59}},
	"KH": {"Cambodia", pt{Lat: 11.56, Lon: 104.92}},
	"KP": {"North Korea", pt{Lat: 39.04, Lon: 125.76}},
	"KR": {"South Korea", pt{Lat: 37.57, Lon: 126.98}},
	"KW": {"Kuwait", pt{Lat: 29.38, Lon: 47.99}},
	"KZ": {"Kazakhstan", pt{Lat: 51.17, Lon: 71.43}},
	"LA": {"Laos", pt{Lat: 17.97, Lon: 102.63}},
	"LB": {"Lebanon", pt{Lat: 33.89, Lon: 35.5}},
	"LK": {"Sri Lanka", pt{Lat: 6.93, Lon: 79.86}},
	"LR": {"Liberia", pt{Lat: 6.3, Lon: -10.8}},
	"LS": {"Lesotho", pt{Lat: -29.31, Lon: 27.48}},
	"LT": {"Lithuania", pt{Lat: 54.69, Lon: 25.28}},
	"LU": {"Luxembourg", pt{Lat: 49.61, Lon: 6.13}},
	"LV": {"Latvia", pt{Lat: 56.95, Lon: 24.11}},
	"LY": {"Libya", pt{Lat: 32.89, Lon: 13.19}},
	"MA": {"Morocco", pt{Lat: 34.02, Lon: -6.84}},
	"MD": {"Moldova", pt{Lat: 47.01, Lon: 28.86}},
	"ME": {"Montenegro", pt{Lat: 42.44, Lon: 19.26}},
	"MG": {"Madagascar", pt{Lat: -18.88, Lon: 47.51}},
	"MK": {"Macedonia", pt{Lat: 41.99, Lon: 21.43}},
	"ML": {"Mali", pt{Lat: 12.64, Lon: -8.0}},
	"MM": {"Myanmar", pt{Lat: 16.87, Lon: 96.2}},
	"MN": {"Mongolia", pt{Lat: 47.89, Lon: 106.91}},
	"MR": {"Mauritania", pt{Lat: 18.07, Lon: -15.96}},
	"MW": {"Malawi", pt{Lat: -13.96, Lon: 33.77}},
	"MX": {"Mexico", pt{Lat: 19.43, Lon: -99.13}},
	"MY": {"Malaysia", pt{Lat: 3.14, Lon: 101.69}},
	"MZ": {"Mozambique", pt{Lat: -25.97, Lon: 32.57}},
	"NA": {"Namibia", pt{Lat: -22.56, Lon: 17.07}},
	"NC": {"New Caledon", pt{Lat: -22.27, Lon: 166.45}},
	"NE": {"Niger", pt{Lat: 13.51, Lon: 2.11}},
	"NG": {"Nigeria", pt{Lat: 9.06, Lon: 7.49}},
	"NI": {"Nicaragua", pt{Lat: 12.11, Lon: -86.24}},
	"NL": {"Netherlands", pt{Lat: 52.37, Lon: 4.9}},
	"NO": {"Norway", pt{Lat: 59.91, Lon: 10.75}},
	"NP": {"Nepal", pt{Lat: 27.72, Lon: 85.32}},
	"NZ": {"New Zealand", pt{Lat: -41.29, Lon: 174.78}},
	"OM": {"Oman", pt{Lat: 23.59, Lon: 58.41}},
	"PA": {"Panama", pt{Lat: 8.98, Lon: -79.52}},
	"PE": {"Peru", pt{Lat: -12.05, Lon: -77.04}},
	"PG": {"Papua New G", pt{Lat: -9.44, Lon: 147.18}},
	"PH": {"Philippines", pt{Lat: 14.6, Lon: 120.98}},
	"PK": {"Pakistan", pt{Lat: 33.68, Lon: 73.05}},
	"PL": {"Poland", pt{Lat: 52.23, Lon: 21.01}},
	"PR": {"Puerto Rico", pt{Lat: 18.47, Lon: -66.11}},
	"PS": {"West Bank", pt{Lat: 31.9, Lon: 35.2}},
	"PT": {"Portugal", pt{Lat: 38.72, Lon: -9.14}},
	"PY": {"Paraguay", pt{Lat: -25.28, Lon: -57.63}},
	"QA": {"Qatar", pt{Lat: 25.29, Lon: 51.53}},
	"RO": {"Romania", pt{Lat: 44.43, Lon: 26.1}},
	"RS": {"Serbia", pt{Lat: 44.79, Lon: 20.45}},
	"RU": {"Russia", pt{Lat: 55.76, Lon: 37.62}},
	"RW": {"Rwanda", pt{Lat: -1.94, Lon: 30.06}},
	"SA": {"Saudi Arabi", pt{Lat: 24.71, Lon: 46.68}},
	"SB": {"Solomon Isl", pt{Lat: -9.43, Lon: 159.95}},
	"SD": {"Sudan", pt{Lat: 15.5, Lon: 32.56}},
	"SE": {"Sweden", pt{Lat: 59.33, Lon: 18.07}},
	"SI": {"Slovenia", pt{Lat: 46.06, Lon: 14.51}},
	"SK": {"Slovakia", pt{Lat: 48.15, Lon: 17.11}},
	"SL": {"Sierra Leon", pt{Lat: 8.47, Lon: -13.23}},
	"SN": {"Senegal", pt{Lat: 14.72, Lon: -17.47}},
	"SO": {"Somalia", pt{Lat: 2.05, Lon: 45.32}},
	"SR": {"Suriname", pt{Lat: 5.85, Lon: -55.2}},
	"SS": {"South Sudan", pt{Lat: 4.85, Lon: 31.58}},
	"SV": {"El Salvador", pt{Lat: 13.69, Lon: -89.22}},
	"SY": {"Syria", pt{Lat: 33.51, Lon: 36.28}},
	"SZ": {"Swaziland", pt{Lat: -26.31, Lon: 31.14}},
	"TD": {"Chad", pt{Lat: 12.13, Lon: 15.06}},
	"TF": {"French Sout", pt{Lat: -49.35, Lon: 70.22}},
	"TG": {"Togo", pt{Lat: 6.13, Lon: 1.22}},
	"TH": {"Thailand", pt{Lat: 13.76, Lon: 100.5}},
	"TJ": {"Tajikistan", pt{Lat: 38.56, Lon: 68.79}},
	"TL": {"East Timor", pt{Lat: -8.56, Lon: 125.57}},
	"TM": {"Turkmenista", pt{Lat: 37.96, Lon: 58.33}},
	"TN": {"Tunisia", pt{Lat: 36.81, Lon: 10.18}},
	"TR": {"Turkey", pt{Lat: 39.93, Lon: 32.86}},
	"TT": {"Trinidad an", pt{Lat: 10.66, Lon: -61.51}},
	"TW": {"Taiwan", pt{Lat: 25.03, Lon: 121.57}},
	"TZ": {"Tanzania", pt{Lat: -6.16, Lon: 35.75}},
	"UA": {"Ukraine", pt{Lat: 50.45, Lon: 30.52}},
	"UG": {"Uganda", pt{Lat: 0.35, Lon: 32.58}},
	"US": {"United Stat", pt{Lat: 38.91, Lon: -77.04}},
	"UY": {"Uruguay", pt{Lat: -34.9, Lon: -56.16}},
	"UZ": {"Uzbekistan", pt{Lat: 41.3, Lon: 69.24}},
	"VE": {"Venezuela", pt{Lat: 10.48, Lon: -66.9}},
	"VN": {"Vietnam", pt{Lat: 21.03, Lon: 105.85}},
	"VU": {"Vanuatu", pt{Lat: -15.51, Lon: 167.18}},
	"YE": {"Yemen", pt{Lat: 15.37, Lon: 44.19}},
	"ZA": {"South Afric", pt{Lat: -25.75, Lon: 28.19}},
	"ZM": {"Zambia", pt{Lat: -15.39, Lon: 28.32}},
	"ZW": {"Zimbabwe", pt{Lat: -17.83, Lon: 31.05}},
}
