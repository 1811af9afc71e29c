package main

// found are arguments with rare hashes, as "grind ID BYTES SEEDS" finds them.
var found = func() map[string][]rareFound {
	m := map[string][]rareFound{}
	for _, x := range foundList {
		m[x.id] = append(m[x.id], x.rareFound)
	}
	return m
}()

var foundList = []struct {
	id string
	rareFound
}{
	{"T02", rareFound{1, 23630519, 0, 3}},
	{"T02", rareFound{1, 7898123, 1, 3}},
	{"T02", rareFound{2, 30506760, 0, 3}},
	{"T02", rareFound{2, 23332479, 1, 3}},
	{"T02", rareFound{3, 13014879, 0, 3}},
	{"T02", rareFound{3, 37550003, 1, 3}},
	{"T02", rareFound{4, 12863236, 0, 3}},
	{"T02", rareFound{4, 25577447, 1, 3}},
	{"T02", rareFound{5, 8851764, 0, 3}},
	{"T02", rareFound{5, 23517956, 1, 3}},
	{"T02", rareFound{6, 34451150, 0, 3}},
	{"T02", rareFound{6, 18542736, 1, 3}},
	{"A01", rareFound{1, 8144756, 0, 3}},
	{"A01", rareFound{1, 8833465, 1, 3}},
	{"A01", rareFound{2, 73063424, 0, 3}},
	{"A01", rareFound{2, 856279, 1, 3}},
	{"A01", rareFound{3, 987985, 0, 3}},
	{"A01", rareFound{3, 37319184, 1, 3}},
	{"A01", rareFound{4, 6518995, 0, 3}},
	{"A01", rareFound{4, 5785605, 1, 3}},
	{"A01", rareFound{5, 13240694, 0, 3}},
	{"A01", rareFound{5, 4422170, 1, 3}},
	{"A01", rareFound{6, 9597511, 0, 3}},
	{"A01", rareFound{6, 2120279, 1, 3}},
	{"A03", rareFound{1, 998974, 0, 3}},
	{"A03", rareFound{1, 12194024, 1, 3}},
	{"A03", rareFound{2, 22859244, 0, 3}},
	{"A03", rareFound{2, 9700259, 1, 3}},
	{"A03", rareFound{3, 1995449, 0, 3}},
	{"A03", rareFound{3, 8062813, 1, 3}},
	{"A03", rareFound{4, 44645513, 0, 3}},
	{"A03", rareFound{4, 62297555, 1, 3}},
	{"A03", rareFound{5, 28493009, 0, 3}},
	{"A03", rareFound{5, 16516229, 1, 3}},
	{"A03", rareFound{6, 21804474, 0, 3}},
	{"A03", rareFound{6, 14726581, 1, 3}},
	{"B01", rareFound{1, 34993342, 0, 3}},
	{"B01", rareFound{1, 1267630, 1, 3}},
	{"B01", rareFound{2, 22160505, 0, 3}},
	{"B01", rareFound{2, 16861167, 1, 3}},
	{"B01", rareFound{3, 16772521, 0, 3}},
	{"B01", rareFound{3, 21489657, 1, 3}},
	{"B01", rareFound{4, 2180391, 0, 3}},
	{"B01", rareFound{4, 20346073, 1, 3}},
	{"B01", rareFound{5, 36131485, 0, 3}},
	{"B01", rareFound{5, 83843394, 1, 3}},
	{"B01", rareFound{6, 24078616, 0, 3}},
	{"B01", rareFound{6, 1815495, 1, 3}},
	{"B04", rareFound{1, 11296855, 0, 3}},
	{"B04", rareFound{1, 17776180, 1, 3}},
	{"B04", rareFound{2, 30926477, 0, 3}},
	{"B04", rareFound{2, 901161, 1, 3}},
	{"B04", rareFound{3, 22411570, 0, 3}},
	{"B04", rareFound{3, 261396, 1, 3}},
	{"B04", rareFound{4, 19604297, 0, 3}},
	{"B04", rareFound{4, 28460811, 1, 3}},
	{"B04", rareFound{5, 9482796, 0, 3}},
	{"B04", rareFound{5, 30376733, 1, 3}},
	{"B04", rareFound{6, 16692322, 0, 3}},
	{"B04", rareFound{6, 560553, 1, 3}},
	{"C05", rareFound{1, 16884630, 0, 3}},
	{"C05", rareFound{1, 31080971, 1, 3}},
	{"C05", rareFound{2, 3774143, 0, 3}},
	{"C05", rareFound{2, 23561339, 1, 3}},
	{"C05", rareFound{3, 4765495, 0, 3}},
	{"C05", rareFound{3, 34705668, 1, 3}},
	{"C05", rareFound{4, 20658888, 0, 3}},
	{"C05", rareFound{4, 4612710, 1, 3}},
	{"C05", rareFound{5, 1228400, 0, 3}},
	{"C05", rareFound{5, 26637566, 1, 3}},
	{"C05", rareFound{6, 3774143, 0, 3}},
	{"C05", rareFound{6, 23561339, 1, 3}},
	{"A02", rareFound{1, 8652870, 0, 3}},
	{"A02", rareFound{1, 11089478, 1, 3}},
	{"A02", rareFound{2, 31641370, 0, 3}},
	{"A02", rareFound{2, 8086600, 1, 3}},
	{"A02", rareFound{3, 15353547, 0, 3}},
	{"A02", rareFound{3, 12907410, 1, 3}},
	{"A02", rareFound{4, 1202683, 0, 3}},
	{"A02", rareFound{4, 7587019, 1, 3}},
	{"A02", rareFound{5, 7368471, 0, 3}},
	{"A02", rareFound{5, 20208032, 1, 3}},
	{"A02", rareFound{6, 4556036, 0, 3}},
	{"A02", rareFound{6, 6846486, 1, 3}},
	{"B02", rareFound{1, 16921080, 0, 3}},
	{"B02", rareFound{1, 30992779, 1, 3}},
	{"B02", rareFound{2, 19595555, 0, 3}},
	{"B02", rareFound{2, 6684250, 1, 3}},
	{"B02", rareFound{3, 538093, 0, 3}},
	{"B02", rareFound{3, 9544569, 1, 3}},
	{"B02", rareFound{4, 60078698, 0, 3}},
	{"B02", rareFound{4, 66121834, 1, 3}},
	{"B02", rareFound{5, 5818740, 0, 3}},
	{"B02", rareFound{5, 1761799, 1, 3}},
	{"B02", rareFound{6, 28625250, 0, 3}},
	{"B02", rareFound{6, 39341997, 1, 3}},
	{"S01", rareFound{1, 23025320, 0, 3}},
	{"S01", rareFound{1, 44953653, 1, 3}},
	{"S01", rareFound{2, 23690599, 0, 3}},
	{"S01", rareFound{2, 10428913, 1, 3}},
	{"S01", rareFound{3, 8774101, 0, 3}},
	{"S01", rareFound{3, 36518110, 1, 3}},
	{"S01", rareFound{4, 4076422, 0, 3}},
	{"S01", rareFound{4, 9060502, 1, 3}},
	{"S01", rareFound{5, 15237833, 0, 3}},
	{"S01", rareFound{5, 21685029, 1, 3}},
	{"S01", rareFound{6, 9322081, 0, 3}},
	{"S01", rareFound{6, 962012, 1, 3}},
	{"H01", rareFound{1, 13758373, 0, 3}},
	{"H01", rareFound{1, 82584845, 1, 3}},
	{"H01", rareFound{2, 39529189, 0, 3}},
	{"H01", rareFound{2, 38534429, 1, 3}},
	{"H01", rareFound{3, 10103367, 0, 3}},
	{"H01", rareFound{3, 32319130, 1, 3}},
	{"H01", rareFound{4, 4474325, 0, 3}},
	{"H01", rareFound{4, 26181882, 1, 3}},
	{"H01", rareFound{5, 2081964, 0, 3}},
	{"H01", rareFound{5, 16903285, 1, 3}},
	{"H01", rareFound{6, 31149867, 0, 3}},
	{"H01", rareFound{6, 24844089, 1, 3}},
	{"H01", rareFound{7, 4066209, 0, 3}},
	{"H01", rareFound{7, 21287780, 1, 3}},
	{"H01", rareFound{8, 20039557, 0, 3}},
	{"H01", rareFound{8, 15804337, 1, 3}},
	{"H01", rareFound{9, 11190844, 0, 3}},
	{"H01", rareFound{9, 42430, 1, 3}},
	{"H01", rareFound{10, 14467295, 0, 3}},
	{"H01", rareFound{10, 2994113, 1, 3}},
	{"H01", rareFound{11, 41848297, 0, 3}},
	{"H01", rareFound{11, 3051014, 1, 3}},
	{"H01", rareFound{12, 3792762, 0, 3}},
	{"H01", rareFound{12, 12695276, 1, 3}},
	{"H01", rareFound{13, 28407506, 0, 3}},
	{"H01", rareFound{13, 12385381, 1, 3}},
	{"H01", rareFound{14, 46116354, 0, 3}},
	{"H01", rareFound{14, 9964203, 1, 3}},
	{"H01", rareFound{15, 2095674, 0, 3}},
	{"H01", rareFound{15, 19944410, 1, 3}},
	{"H01", rareFound{16, 4645669, 0, 3}},
	{"H01", rareFound{16, 18711777, 1, 3}},
}
