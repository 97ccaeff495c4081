package specgen

import (
	"fmt"
	"math/rand"

	"github.com/mmcloughlin/trunnel/verif/model"
)

// Rich makes a specification with structs that have many vectors: one with a
// union of many cases, one with several unions, and one that contains either.
func Rich(rng *rand.Rand) *model.File {
	f := &model.File{}
	field := func(name string, bits int) *model.Member {
		return &model.Member{Kind: model.Scalar, Name: name, Base: model.Base{Bits: bits}}
	}
	widths := []int{8, 16, 32, 64}
	part := func(name string) *model.Member {
		switch rng.Intn(4) {
		case 0:
			return &model.Member{Kind: model.Nulterm, Name: name}
		case 1:
			return &model.Member{Kind: model.Fixed, Name: name, Base: model.Base{Bits: 8}, Size: model.Int{Val: int64(1 + rng.Intn(4))}}
		}
		return field(name, widths[rng.Intn(4)])
	}
	union := func(tag string, bits, n int, prefix string) *model.Member {
		u := &model.Member{Kind: model.Union, Name: prefix, Tag: model.Ref{Name: tag}}
		next := int64(rng.Intn(3))
		for k := 0; k < n; k++ {
			c := &model.Case{Vals: []model.Range{{Lo: model.Int{Val: next}}}}
			if rng.Intn(4) == 0 && bits > 8 {
				hi := model.Int{Val: next + 1 + int64(rng.Intn(9))}
				c.Vals[0].Hi = &hi
				next = hi.Val
			}
			next += 1 + int64(rng.Intn(10)/9)
			if rng.Intn(6) > 0 {
				c.Members = []*model.Member{part(fmt.Sprintf("%s_%d", prefix, k))}
			}
			u.Cases = append(u.Cases, c)
		}
		return u
	}
	bits := widths[rng.Intn(4)]
	wide := &model.Struct{Name: "wide", Members: []*model.Member{field("tag", bits), union("tag", bits, 60+rng.Intn(80), "w")}}
	deep := &model.Struct{Name: "deep"}
	most := 70
	if rng.Intn(5) == 0 {
		most = 1000
	}
	for k, total := 0, 1; total <= most; k++ {
		n := 3 + rng.Intn(4)
		total *= n
		bits := widths[rng.Intn(4)]
		tag := fmt.Sprintf("tag%d", k)
		deep.Members = append(deep.Members, field(tag, bits), union(tag, bits, n, fmt.Sprintf("d%d", k)))
	}
	f.Structs = []*model.Struct{wide, deep}
	holder := &model.Struct{Name: "holder", Members: []*model.Member{
		field("first", 8),
		{Kind: model.Scalar, Name: "inner", Base: model.Base{Struct: f.Structs[rng.Intn(2)].Name}},
	}}
	f.Structs = append(f.Structs, holder)
	rng.Shuffle(3, func(i, j int) { f.Structs[i], f.Structs[j] = f.Structs[j], f.Structs[i] })
	return f
}

// Twin is a specification with structs in which several unions have the same
// tag and the same value lists, in any order, so that every case of each can be
// taken. The tag is a field of the struct or of a context.
func Twin(rng *rand.Rand) *model.File {
	f := &model.File{}
	bits := 8 << rng.Intn(4)
	var lists [][]model.Range
	next := int64(rng.Intn(2))
	for k, n := 0, 2+rng.Intn(6); k < n; k++ {
		r := model.Range{Lo: model.Int{Val: next}}
		if rng.Intn(3) == 0 {
			next += int64(rng.Intn(8))
			r.Hi = &model.Int{Val: next}
		}
		next += 1 + int64(rng.Intn(3))
		lists = append(lists, []model.Range{r})
		if k > 1 && rng.Intn(4) == 0 {
			// One more value for an earlier case.
			x := rng.Intn(len(lists))
			lists[x] = append(lists[x], model.Range{Lo: model.Int{Val: next}})
			next++
		}
	}
	if rng.Intn(2) == 0 {
		lists = append(lists, nil) // default
	}
	s := &model.Struct{Name: "twin"}
	tag := model.Ref{Name: "tag"}
	field := &model.Member{Kind: model.Scalar, Name: "tag", Base: model.Base{Bits: bits}}
	if rng.Intn(2) == 0 {
		tag.Scope = "ctx"
		f.Contexts = []*model.Context{{Name: "ctx", Fields: []*model.Member{field}}}
		s.Ctxs = []string{"ctx"}
	} else {
		s.Members = append(s.Members, field)
	}
	for k, n := 0, 2+rng.Intn(2); k < n; k++ {
		u := &model.Member{Kind: model.Union, Name: fmt.Sprintf("u%d", k), Tag: tag}
		for j, l := range lists {
			c := &model.Case{Default: l == nil, Vals: l}
			for x := rng.Intn(3); x > 0; x-- {
				c.Members = append(c.Members, &model.Member{Kind: model.Scalar, Name: fmt.Sprintf("f%d_%d_%d", k, j, x), Base: model.Base{Bits: 8 << rng.Intn(4)}})
			}
			u.Cases = append(u.Cases, c)
		}
		rng.Shuffle(len(u.Cases), func(i, j int) { u.Cases[i], u.Cases[j] = u.Cases[j], u.Cases[i] })
		s.Members = append(s.Members, u)
		if rng.Intn(2) == 0 {
			s.Members = append(s.Members, &model.Member{Kind: model.Scalar, Name: fmt.Sprintf("between%d", k), Base: model.Base{Bits: 8}})
		}
	}
	f.Structs = []*model.Struct{s}
	return f
}
