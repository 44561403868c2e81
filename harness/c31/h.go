// Package c31: predefined disk geometries load completely.
package c31

import (
	"strings"

	"github.com/dargueta/disko/disks"
	_ "github.com/dargueta/disko/zz_verif/mcsv"
	"github.com/dargueta/disko/zz_verif/sym"
)

// rows splits the table; a field in double quotes has its inner ones doubled.
func rows() []map[string]string {
	lines := strings.Split(Table, "\n")
	header := split(lines[0])
	var r []map[string]string
	for _, l := range lines[1:] {
		l = strings.TrimSuffix(l, "\r")
		if l == "" {
			continue
		}
		m := map[string]string{}
		for i, f := range split(l) {
			m[header[i]] = f
		}
		r = append(r, m)
	}
	return r
}

func split(l string) []string {
	fs := strings.Split(strings.TrimSuffix(l, "\r"), "|")
	for i, f := range fs {
		if len(f) >= 2 && f[0] == '"' {
			fs[i] = strings.ReplaceAll(f[1:len(f)-1], `""`, `"`)
		}
	}
	return fs
}

func number(s string) uint {
	n := uint(0)
	for i := 0; i < len(s); i++ {
		n = n*10 + uint(s[i]-'0')
	}
	return n
}

func same(g disks.DiskGeometry, m map[string]string) bool {
	return g.Name == m["name"] && g.Slug == m["slug"] &&
		g.FirstYearAvailable == number(m["first_year_available"]) &&
		g.FormFactor == m["form_factor"] &&
		g.IsRemovable == number(m["is_removable"]) &&
		g.BitsPerAddressUnit == number(m["bits_per_address_unit"]) &&
		g.AddressUnitsPerSector == number(m["address_units_per_sector"]) &&
		g.SectorsPerTrack == number(m["sectors_per_track"]) &&
		g.TotalDataTracks == number(m["total_data_tracks"]) &&
		g.HiddenTracks == number(m["hidden_tracks"]) &&
		g.Heads == number(m["heads"]) &&
		g.Notes == m["notes"]
}

// H_Rows: every row of the table is available under its slug, completely.
func H_Rows() {
	rs := rows()
	sym.Assert(len(rs) > 0, "the table has rows")
	m := rs[sym.Choice(len(rs))]
	g, err := disks.GetPredefinedDiskGeometry(m["slug"])
	sym.Assert(err == nil, "every row is available under its slug")
	sym.Assert(same(g, m), "a geometry has the values of its row")
	sym.Assert(g.TotalSizeBytes() == int64((g.BitsPerAddressUnit*g.AddressUnitsPerSector*g.SectorsPerTrack*g.TotalDataTracks*g.Heads+7)/8),
		"the size of the image follows from the values of its row")
	g.Heads++
	again, err := disks.GetPredefinedDiskGeometry(m["slug"])
	sym.Assert(err == nil && same(again, m), "changing a geometry leaves the table alone")
}

// H_Lookup: any slug at all of any length around those of the table.
func H_Lookup() {
	rs := rows()
	longest := 0
	for _, m := range rs {
		if n := len(m["slug"]); n > longest {
			longest = n
		}
	}
	slug := sym.String(sym.Choice(longest + 2))
	g, err := disks.GetPredefinedDiskGeometry(slug)
	if err == nil {
		sym.Assert(g.Slug == slug, "what is found is what was asked for")
		n := 0
		for _, m := range rs {
			if m["slug"] == slug {
				n++
				sym.Assert(same(g, m), "a geometry has the values of its row")
			}
		}
		sym.Assert(n == 1, "a slug is found exactly if it is in the table, once")
		sym.Cover("found")
		return
	}
	for _, m := range rs {
		sym.Assert(m["slug"] != slug, "an unknown slug is an error, a known one is not")
	}
	sym.Assert(g == (disks.DiskGeometry{}), "no geometry together with an error")
	sym.Cover("unknown")
}
