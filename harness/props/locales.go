// Code generated by tools/mklocales.py; DO NOT EDIT.

package props

import (
	"github.com/vorlif/spreak/humanize"
	af "github.com/vorlif/spreak/humanize/locale/af"
	ar "github.com/vorlif/spreak/humanize/locale/ar"
	arDZ "github.com/vorlif/spreak/humanize/locale/arDZ"
	ast "github.com/vorlif/spreak/humanize/locale/ast"
	az "github.com/vorlif/spreak/humanize/locale/az"
	be "github.com/vorlif/spreak/humanize/locale/be"
	bg "github.com/vorlif/spreak/humanize/locale/bg"
	bn "github.com/vorlif/spreak/humanize/locale/bn"
	br "github.com/vorlif/spreak/humanize/locale/br"
	bs "github.com/vorlif/spreak/humanize/locale/bs"
	ca "github.com/vorlif/spreak/humanize/locale/ca"
	ckb "github.com/vorlif/spreak/humanize/locale/ckb"
	cs "github.com/vorlif/spreak/humanize/locale/cs"
	cy "github.com/vorlif/spreak/humanize/locale/cy"
	da "github.com/vorlif/spreak/humanize/locale/da"
	de "github.com/vorlif/spreak/humanize/locale/de"
	dsb "github.com/vorlif/spreak/humanize/locale/dsb"
	el "github.com/vorlif/spreak/humanize/locale/el"
	enAU "github.com/vorlif/spreak/humanize/locale/enAU"
	enGB "github.com/vorlif/spreak/humanize/locale/enGB"
	eo "github.com/vorlif/spreak/humanize/locale/eo"
	es "github.com/vorlif/spreak/humanize/locale/es"
	esAR "github.com/vorlif/spreak/humanize/locale/esAR"
	esCO "github.com/vorlif/spreak/humanize/locale/esCO"
	esMX "github.com/vorlif/spreak/humanize/locale/esMX"
	esVE "github.com/vorlif/spreak/humanize/locale/esVE"
	et "github.com/vorlif/spreak/humanize/locale/et"
	eu "github.com/vorlif/spreak/humanize/locale/eu"
	fa "github.com/vorlif/spreak/humanize/locale/fa"
	fi "github.com/vorlif/spreak/humanize/locale/fi"
	fr "github.com/vorlif/spreak/humanize/locale/fr"
	fy "github.com/vorlif/spreak/humanize/locale/fy"
	ga "github.com/vorlif/spreak/humanize/locale/ga"
	gd "github.com/vorlif/spreak/humanize/locale/gd"
	gl "github.com/vorlif/spreak/humanize/locale/gl"
	he "github.com/vorlif/spreak/humanize/locale/he"
	hi "github.com/vorlif/spreak/humanize/locale/hi"
	hr "github.com/vorlif/spreak/humanize/locale/hr"
	hsb "github.com/vorlif/spreak/humanize/locale/hsb"
	hu "github.com/vorlif/spreak/humanize/locale/hu"
	hy "github.com/vorlif/spreak/humanize/locale/hy"
	ia "github.com/vorlif/spreak/humanize/locale/ia"
	id "github.com/vorlif/spreak/humanize/locale/id"
	ig "github.com/vorlif/spreak/humanize/locale/ig"
	io "github.com/vorlif/spreak/humanize/locale/io"
	is "github.com/vorlif/spreak/humanize/locale/is"
	it "github.com/vorlif/spreak/humanize/locale/it"
	ja "github.com/vorlif/spreak/humanize/locale/ja"
	ka "github.com/vorlif/spreak/humanize/locale/ka"
	kab "github.com/vorlif/spreak/humanize/locale/kab"
	kk "github.com/vorlif/spreak/humanize/locale/kk"
	km "github.com/vorlif/spreak/humanize/locale/km"
	kn "github.com/vorlif/spreak/humanize/locale/kn"
	ko "github.com/vorlif/spreak/humanize/locale/ko"
	ky "github.com/vorlif/spreak/humanize/locale/ky"
	lb "github.com/vorlif/spreak/humanize/locale/lb"
	lt "github.com/vorlif/spreak/humanize/locale/lt"
	lv "github.com/vorlif/spreak/humanize/locale/lv"
	mk "github.com/vorlif/spreak/humanize/locale/mk"
	ml "github.com/vorlif/spreak/humanize/locale/ml"
	mn "github.com/vorlif/spreak/humanize/locale/mn"
	mr "github.com/vorlif/spreak/humanize/locale/mr"
	ms "github.com/vorlif/spreak/humanize/locale/ms"
	my "github.com/vorlif/spreak/humanize/locale/my"
	nb "github.com/vorlif/spreak/humanize/locale/nb"
	ne "github.com/vorlif/spreak/humanize/locale/ne"
	nl "github.com/vorlif/spreak/humanize/locale/nl"
	nn "github.com/vorlif/spreak/humanize/locale/nn"
	os "github.com/vorlif/spreak/humanize/locale/os"
	pa "github.com/vorlif/spreak/humanize/locale/pa"
	pl "github.com/vorlif/spreak/humanize/locale/pl"
	pt "github.com/vorlif/spreak/humanize/locale/pt"
	ptBR "github.com/vorlif/spreak/humanize/locale/ptBR"
	ro "github.com/vorlif/spreak/humanize/locale/ro"
	ru "github.com/vorlif/spreak/humanize/locale/ru"
	sk "github.com/vorlif/spreak/humanize/locale/sk"
	sl "github.com/vorlif/spreak/humanize/locale/sl"
	sq "github.com/vorlif/spreak/humanize/locale/sq"
	sr "github.com/vorlif/spreak/humanize/locale/sr"
	srLatn "github.com/vorlif/spreak/humanize/locale/srLatn"
	sv "github.com/vorlif/spreak/humanize/locale/sv"
	sw "github.com/vorlif/spreak/humanize/locale/sw"
	ta "github.com/vorlif/spreak/humanize/locale/ta"
	te "github.com/vorlif/spreak/humanize/locale/te"
	tg "github.com/vorlif/spreak/humanize/locale/tg"
	th "github.com/vorlif/spreak/humanize/locale/th"
	tk "github.com/vorlif/spreak/humanize/locale/tk"
	tr "github.com/vorlif/spreak/humanize/locale/tr"
	tt "github.com/vorlif/spreak/humanize/locale/tt"
	udm "github.com/vorlif/spreak/humanize/locale/udm"
	ug "github.com/vorlif/spreak/humanize/locale/ug"
	uk "github.com/vorlif/spreak/humanize/locale/uk"
	ur "github.com/vorlif/spreak/humanize/locale/ur"
	uz "github.com/vorlif/spreak/humanize/locale/uz"
	vi "github.com/vorlif/spreak/humanize/locale/vi"
	zhHans "github.com/vorlif/spreak/humanize/locale/zhHans"
	zhHant "github.com/vorlif/spreak/humanize/locale/zhHant"
)

// shipped are the locales of the humanize package.
func shipped() []*humanize.LocaleData {
	return []*humanize.LocaleData{
		af.New(),
		ar.New(),
		arDZ.New(),
		ast.New(),
		az.New(),
		be.New(),
		bg.New(),
		bn.New(),
		br.New(),
		bs.New(),
		ca.New(),
		ckb.New(),
		cs.New(),
		cy.New(),
		da.New(),
		de.New(),
		dsb.New(),
		el.New(),
		enAU.New(),
		enGB.New(),
		eo.New(),
		es.New(),
		esAR.New(),
		esCO.New(),
		esMX.New(),
		esVE.New(),
		et.New(),
		eu.New(),
		fa.New(),
		fi.New(),
		fr.New(),
		fy.New(),
		ga.New(),
		gd.New(),
		gl.New(),
		he.New(),
		hi.New(),
		hr.New(),
		hsb.New(),
		hu.New(),
		hy.New(),
		ia.New(),
		id.New(),
		ig.New(),
		io.New(),
		is.New(),
		it.New(),
		ja.New(),
		ka.New(),
		kab.New(),
		kk.New(),
		km.New(),
		kn.New(),
		ko.New(),
		ky.New(),
		lb.New(),
		lt.New(),
		lv.New(),
		mk.New(),
		ml.New(),
		mn.New(),
		mr.New(),
		ms.New(),
		my.New(),
		nb.New(),
		ne.New(),
		nl.New(),
		nn.New(),
		os.New(),
		pa.New(),
		pl.New(),
		pt.New(),
		ptBR.New(),
		ro.New(),
		ru.New(),
		sk.New(),
		sl.New(),
		sq.New(),
		sr.New(),
		srLatn.New(),
		sv.New(),
		sw.New(),
		ta.New(),
		te.New(),
		tg.New(),
		th.New(),
		tk.New(),
		tr.New(),
		tt.New(),
		udm.New(),
		ug.New(),
		uk.New(),
		ur.New(),
		uz.New(),
		vi.New(),
		zhHans.New(),
		zhHant.New(),
	}
}
