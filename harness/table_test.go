package zzverif

// What each shorthand stands for, from the CSS specifications and not from the data the code uses.
//
// must: setting the shorthand sets all of these, so it replaces them.
// may: setting the shorthand may or may not be taken to set these as well (properties that it only resets,
// legacy names of the same property, or longhands on which the specifications have changed).

type shorthand struct{ must, may []string }

func sides(pre, post string, names ...string) []string {
	var out []string
	for _, n := range names {
		out = append(out, pre+n+post)
	}
	return out
}

func cat(xs ...[]string) []string {
	var out []string
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

var (
	physical = []string{"top", "right", "bottom", "left"}
	wsc      = []string{"width", "style", "color"}
	variants = sides("font-variant-", "", "alternates", "caps", "east-asian", "emoji", "ligatures", "numeric", "position")
	bimage   = append(sides("border-image-", "", "outset", "repeat", "slice", "source", "width"), "border-image")
	mborder  = append(sides("mask-border-", "", "mode", "outset", "repeat", "slice", "source", "width"), "mask-border")
	logical  = []string{"block-start", "block-end", "inline-start", "inline-end"}
)

func boxShorthand(m map[string]shorthand, name string, pre string) {
	m[name] = shorthand{must: sides(pre, "", physical...), may: sides(name+"-", "", logical...)}
	for _, ax := range []string{"block", "inline"} {
		m[name+"-"+ax] = shorthand{must: sides(name+"-"+ax+"-", "", "start", "end")}
	}
}

var shorthands = func() map[string]shorthand {
	m := map[string]shorthand{}
	for _, b := range []string{"margin", "padding", "scroll-margin", "scroll-padding"} {
		boxShorthand(m, b, b+"-")
	}
	boxShorthand(m, "inset", "")

	var borderAll, borderMay []string
	for _, x := range wsc {
		m["border-"+x] = shorthand{must: sides("border-", "-"+x, physical...), may: sides("border-", "-"+x, logical...)}
		borderAll = append(borderAll, m["border-"+x].must...)
		borderMay = append(borderMay, m["border-"+x].may...)
		for _, ax := range []string{"block", "inline"} {
			m["border-"+ax+"-"+x] = shorthand{must: sides("border-"+ax+"-", "-"+x, "start", "end")}
		}
	}
	m["border"] = shorthand{must: borderAll, may: cat(borderMay, bimage)}
	for _, s := range cat(physical, logical) {
		m["border-"+s] = shorthand{must: sides("border-"+s+"-", "", wsc...)}
	}
	for _, ax := range []string{"block", "inline"} {
		m["border-"+ax] = shorthand{must: cat(sides("border-"+ax+"-start-", "", wsc...), sides("border-"+ax+"-end-", "", wsc...))}
	}
	m["border-radius"] = shorthand{
		must: sides("border-", "-radius", "top-left", "top-right", "bottom-left", "bottom-right"),
		may:  sides("border-", "-radius", "start-start", "start-end", "end-start", "end-end"),
	}
	m["border-image"] = shorthand{must: bimage[:5]}
	m["-webkit-border-before"] = shorthand{must: sides("-webkit-border-before-", "", wsc...)}

	m["background"] = shorthand{
		must: cat(sides("background-", "", "image", "size", "repeat", "origin", "clip", "attachment", "color", "position-x", "position-y")),
		may:  []string{"background-position", "background-blend-mode"},
	}
	m["background-position"] = shorthand{must: sides("background-position-", "", "x", "y")}

	m["animation"] = shorthand{
		must: sides("animation-", "", "name", "duration", "timing-function", "delay", "direction", "iteration-count", "fill-mode", "play-state", "timeline"),
		may:  sides("animation-", "", "range-start", "range-end", "composition", "range"),
	}
	m["animation-range"] = shorthand{must: sides("animation-range-", "", "start", "end")}
	m["transition"] = shorthand{
		must: sides("transition-", "", "delay", "duration", "property", "timing-function", "behavior"),
	}
	m["flex"] = shorthand{must: sides("flex-", "", "grow", "shrink", "basis")}
	m["flex-flow"] = shorthand{must: sides("flex-", "", "direction", "wrap")}
	m["font"] = shorthand{
		must: cat(sides("font-", "", "style", "weight", "stretch", "size", "family"), []string{"line-height"}, variants),
		may: cat([]string{"font-variant"}, sides("font-", "", "size-adjust", "kerning", "feature-settings", "optical-sizing",
			"variation-settings", "language-override", "palette")),
	}
	m["font-variant"] = shorthand{must: variants}
	m["font-synthesis"] = shorthand{must: sides("font-synthesis-", "", "style", "small-caps", "weight", "position")}
	m["gap"] = shorthand{must: []string{"row-gap", "column-gap"}, may: []string{"grid-row-gap", "grid-column-gap", "grid-gap"}}
	m["grid-gap"] = shorthand{must: []string{"grid-row-gap", "grid-column-gap"}, may: []string{"row-gap", "column-gap", "gap"}}
	m["grid-row-gap"] = shorthand{must: []string{"grid-row-gap"}, may: []string{"row-gap"}}
	m["row-gap"] = shorthand{must: []string{"row-gap"}, may: []string{"grid-row-gap"}}
	m["grid-column-gap"] = shorthand{must: []string{"grid-column-gap"}, may: []string{"column-gap"}}
	m["column-gap"] = shorthand{must: []string{"column-gap"}, may: []string{"grid-column-gap"}}
	m["grid-template"] = shorthand{must: sides("grid-template-", "", "columns", "rows", "areas")}
	m["grid"] = shorthand{must: cat(sides("grid-template-", "", "columns", "rows", "areas"), sides("grid-auto-", "", "rows", "columns", "flow"))}
	m["grid-row"] = shorthand{must: sides("grid-row-", "", "start", "end")}
	m["grid-column"] = shorthand{must: sides("grid-column-", "", "start", "end")}
	m["grid-area"] = shorthand{must: cat(m["grid-row"].must, m["grid-column"].must)}
	m["list-style"] = shorthand{must: sides("list-style-", "", "image", "position", "type")}
	m["mask"] = shorthand{
		must: sides("mask-", "", "image", "mode", "repeat", "position", "clip", "origin", "size", "composite"),
		may:  cat(mborder, []string{"-webkit-mask"}),
	}
	m["mask-border"] = shorthand{must: mborder[:6]}
	m["-webkit-mask"] = shorthand{
		must: sides("-webkit-mask-", "", "image", "repeat", "attachment", "position", "origin", "clip"),
		may:  sides("-webkit-mask-", "", "size", "composite", "position-x", "position-y", "repeat-x", "repeat-y"),
	}
	m["-webkit-mask-position"] = shorthand{must: []string{"-webkit-mask-position"}, may: sides("-webkit-mask-position-", "", "x", "y")}
	m["-webkit-mask-repeat"] = shorthand{must: []string{"-webkit-mask-repeat"}, may: sides("-webkit-mask-repeat-", "", "x", "y")}
	m["offset"] = shorthand{must: sides("offset-", "", "position", "path", "distance", "anchor", "rotate")}
	m["outline"] = shorthand{must: sides("outline-", "", wsc...)}
	m["-moz-outline-radius"] = shorthand{must: sides("-moz-outline-radius-", "", "topleft", "topright", "bottomleft", "bottomright")}
	m["overflow"] = shorthand{must: sides("overflow-", "", "x", "y"), may: sides("overflow-", "", "block", "inline")}
	m["overscroll-behavior"] = shorthand{must: sides("overscroll-behavior-", "", "x", "y"), may: sides("overscroll-behavior-", "", "block", "inline")}
	m["place-content"] = shorthand{must: []string{"align-content", "justify-content"}}
	m["place-items"] = shorthand{must: []string{"align-items", "justify-items"}}
	m["place-self"] = shorthand{must: []string{"align-self", "justify-self"}}
	m["text-decoration"] = shorthand{must: sides("text-decoration-", "", "line", "style", "color", "thickness")}
	m["text-emphasis"] = shorthand{must: sides("text-emphasis-", "", "style", "color")}
	m["-webkit-text-stroke"] = shorthand{must: sides("-webkit-text-stroke-", "", "width", "color")}
	m["caret"] = shorthand{must: sides("caret-", "", "color", "shape")}
	m["column-rule"] = shorthand{must: sides("column-rule-", "", wsc...)}
	m["columns"] = shorthand{must: sides("column-", "", "width", "count")}
	m["contain-intrinsic-size"] = shorthand{must: sides("contain-intrinsic-", "", "width", "height"), may: sides("contain-intrinsic-", "-size", "block", "inline")}
	m["container"] = shorthand{must: sides("container-", "", "name", "type")}
	m["scroll-timeline"] = shorthand{must: sides("scroll-timeline-", "", "name", "axis")}
	m["view-timeline"] = shorthand{must: sides("view-timeline-", "", "name", "axis"), may: []string{"view-timeline-inset"}}
	m["-ms-content-zoom-limit"] = shorthand{must: sides("-ms-content-zoom-limit-", "", "max", "min")}
	m["-ms-content-zoom-snap"] = shorthand{must: sides("-ms-content-zoom-snap-", "", "type", "points")}
	m["-ms-scroll-limit"] = shorthand{must: sides("-ms-scroll-limit-", "", "x-min", "y-min", "x-max", "y-max")}
	m["-ms-scroll-snap-x"] = shorthand{must: []string{"-ms-scroll-snap-type", "-ms-scroll-snap-points-x"}}
	m["-ms-scroll-snap-y"] = shorthand{must: []string{"-ms-scroll-snap-type", "-ms-scroll-snap-points-y"}}

	// not shorthands in the list the code uses, or legacy names
	alias := func(a string, may ...string) { m[a] = shorthand{must: []string{a}, may: may} }
	alias("white-space", "white-space-collapse", "text-wrap")
	alias("word-wrap", "overflow-wrap")
	alias("overflow-wrap", "word-wrap")
	alias("page-break-after", "break-after")
	alias("break-after", "page-break-after")
	alias("page-break-before", "break-before")
	alias("break-before", "page-break-before")
	alias("page-break-inside", "break-inside")
	alias("break-inside", "page-break-inside")
	alias("-webkit-line-clamp", "line-clamp")
	alias("line-clamp", "-webkit-line-clamp", "max-lines")
	alias("scroll-snap-type", "scroll-snap-type-x", "scroll-snap-type-y")
	alias("line-height-step", "line-height")
	for _, s := range cat(sides("border-", "-start-radius", "start", "end"), sides("border-", "-end-radius", "start", "end")) {
		alias(s)
	}
	return m
}()

// mustSet returns the properties that are certainly set by setting name.
func mustSet(name string) []string {
	if s, ok := shorthands[name]; ok {
		return s.must
	}
	return []string{name}
}

// ambiguous reports whether the table leaves open what setting name sets.
func ambiguous(name string) bool {
	return name == "all" || len(shorthands[name].may) > 0
}

func mayCover(s, p string) bool {
	if s == "all" {
		return true
	}
	if s == p {
		return true
	}
	sm := map[string]bool{}
	for _, x := range shorthands[s].may {
		sm[x] = true
		for _, y := range mustSet(x) {
			sm[y] = true
		}
	}
	for _, x := range mustSet(s) {
		sm[x] = true
	}
	if sm[p] {
		return true
	}
	for _, x := range mustSet(p) {
		if !sm[x] {
			return false
		}
	}
	return true
}

func mustCover(s, p string) bool {
	set := map[string]bool{}
	for _, x := range mustSet(s) {
		set[x] = true
	}
	// everything p could be taken to set
	for _, x := range cat(mustSet(p), shorthands[p].may) {
		if !set[x] {
			return false
		}
	}
	return true
}

// clusters are groups of properties that set each other
var clusters = [][]string{
	{"margin-block", "margin-block-start", "margin-block-end"},
	{"margin-top", "margin-left", "margin-right", "margin-bottom"},
	{"padding-inline", "padding-inline-start", "padding-inline-end"},
	{"border-top", "border-top-width", "border-top-style", "border-top-color"},
	{"border-inline", "border-inline-start", "border-inline-width", "border-inline-end-color", "border-inline-start-width"},
	{"border-image", "border-image-source", "border-image-width"},
	{"flex", "flex-grow", "flex-shrink", "flex-basis", "flex-flow", "flex-wrap", "flex-direction"},
	{"grid-area", "grid-row", "grid-column", "grid-row-start", "grid-column-end"},
	{"grid", "grid-template", "grid-template-rows", "grid-auto-flow"},
	{"list-style", "list-style-type", "list-style-image"},
	{"outline", "outline-width", "outline-color", "outline-offset"},
	{"place-content", "align-content", "justify-content"},
	{"place-items", "align-items", "place-self", "justify-self"},
	{"column-rule", "column-rule-color", "columns", "column-width"},
	{"background-position", "background-position-x", "background-position-y", "background-color"},
	{"text-emphasis", "text-emphasis-color", "caret", "caret-color"},
	{"font-variant", "font-variant-caps", "font-variant-numeric"},
	{"animation-range", "animation-range-start", "container", "container-name"},
	{"color", "fill", "stroke", "opacity", "display", "width", "height"},
	{"color", "-webkit-box-shadow", "box-shadow", "transform", "x-unknown"},
	{"margin", "margin-top", "margin-left"},
	{"padding", "padding-top", "padding-right"},
	{"inset", "top", "left", "bottom"},
	{"border", "border-width", "border-color", "border-top", "border-top-width", "border-left-color"},
	{"border-radius", "border-top-left-radius"},
	{"background", "background-color", "background-image", "background-position"},
	{"gap", "row-gap", "column-gap"},
	{"font", "font-size", "line-height", "font-weight"},
	{"overflow", "overflow-x", "overflow-y"},
	{"transition", "transition-property", "transition-duration"},
	{"animation", "animation-name"},
	{"text-decoration", "text-decoration-line", "text-decoration-color"},
}

// compatible leaves out the properties because of which it would be open which of props set each other.
func compatible(props []string) []string {
	var out []string
	open := func(a, b string) bool {
		for _, x := range cat([]string{b}, mustSet(b), shorthands[b].may) {
			for _, y := range shorthands[a].may {
				if x == y {
					return true
				}
			}
		}
		return false
	}
next:
	for _, p := range props {
		for _, q := range out {
			if q == p || open(p, q) || open(q, p) {
				continue next
			}
		}
		out = append(out, p)
	}
	return out
}
