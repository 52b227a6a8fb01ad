package checks

import (
	"strings"

	"skipverif/engine"
	"skipverif/load"
)

// Prop says what decides a property.
type Prop struct {
	ID      string
	Methods []string // operations whose analysis it needs
	Ctors   bool     // also analyse the constructors
	Insts   func(c *load.Ctor) bool
	Rules   []string            // rules that decide it; "x-*" stands for all with this prefix
	Only    map[string][]string // rules which count only in some operations
	Extra   []func(r *run)
	Cost    bool // check the steps of searches
	Solo    bool // examine loops for repeating although nothing else is going on
	Text    string
}

var writers = []string{"Store", "LoadAndDelete", "LoadOrStore", "LoadOrStoreLazy", "Delete"}
var adders = []string{"Store", "LoadOrStore", "LoadOrStoreLazy"}
var all = load.Methods

// core are the obligations of the protocol which every guarantee about the
// contents of the map rests on: a violated one can break any of them.
var core = []string{"init-*", "link-*", "unlink-*", "linked-complete", "flag-*", "mark-*", "insert-once", "node-overwrite",
	"map-overwrite", "hl-*", "layer-bound", "header-data", "extra-shared", "unlock-held", "race", "ctor-header", "ctor-level", "less-order"}

func with(a []string, b ...string) []string { return append(append([]string(nil), a...), b...) }

func notFloat(c *load.Ctor) bool { return !(c.Float && !c.Fn) }
func isFloat(c *load.Ctor) bool  { return c.Float && !c.Fn }
func isFunc(c *load.Ctor) bool   { return c.Fn && !c.Float }
func anyCtor(c *load.Ctor) bool  { return true }

// Props is the table of all decided properties.
var Props = []*Prop{
	{ID: "S01", Methods: all, Ctors: true, Rules: with(core, "store-done", "value-*", "absent", "range-*", "result", "result-present", "result-key", "ctor-*", "cast"),
		Text: "an insertion is linked at all its layers between held, unmarked, re-validated neighbours and declared fully linked before the operation returns; an operation that finds its key there returns only after observing it fully linked and unmarked; absence is only reported on evidence at every layer up to the highest level"},
	{ID: "S02", Methods: all, Ctors: true, Rules: with(core, "value-*", "cell-immutable", "range-value", "cast"),
		Only: map[string][]string{"absent": {"Load"}, "result": {"Load", "LoadOrStore", "LoadOrStoreLazy"}, "result-key": {"Load", "LoadOrStore", "LoadOrStoreLazy"}, "result-present": {"Load", "LoadOrStore", "LoadOrStoreLazy"}, "store-done": {"Store"}},
		Text: "every exit of the lookups is checked: a value is returned only from a cell of an entry with an equal key that was observed fully linked and unmarked during the call; absence only with evidence"},
	{ID: "S03", Methods: all, Ctors: true, Rules: with(core, "value-foreign", "store-done", "less-order"),
		Only: map[string][]string{"result": adders, "result-key": adders, "result-present": adders, "lazy-once": adders, "lazy-needed": adders},
		Text: "entries are linked only between held, unmarked neighbours adjacent at that layer with pred < key < succ, once, and loaded=false is returned exactly on the paths that linked the entry"},
	{ID: "S04", Methods: all, Rules: with(core),
		Only: map[string][]string{"result": {"Delete", "LoadAndDelete"}, "absent": {"Delete", "LoadAndDelete"}, "result-key": {"Delete", "LoadAndDelete"}, "result-present": {"Delete", "LoadAndDelete"}},
		Text: "an entry is marked only under its own lock, when it is fully linked and unmarked, once per call; true is returned exactly on the paths that marked it and unlinked it at every layer"},
	{ID: "S05", Methods: all, Rules: with(core, "value-*", "store-done", "cell-immutable"),
		Only: map[string][]string{"result": {"LoadAndDelete", "Store"}, "result-key": {"LoadAndDelete"}, "result-present": {"LoadAndDelete"}},
		Text: "an overwrite replaces only the cell it read before it saw the entry present (or holds the entry's lock), and a removal returns a cell that no later overwrite can replace"},
	{ID: "S06", Methods: all, Ctors: true, Rules: with(core, "value-foreign", "value-lost", "value-token", "result-key", "store-done", "cell-immutable", "cast"),
		Text: "the successor of a shared entry changes only under its lock to the new entry (whose successor is the old one) or to the successor of the removed one; no other entry's key, level, value or flags are written"},
	{ID: "S07", Methods: all, Ctors: true, Rules: []string{"link-*", "unlink-*", "range-order", "range-key", "ctor-less", "less-order", "init-key", "insert-once", "node-overwrite", "race", "header-data", "ctor-header"},
		Text: "insertions keep pred < key < succ in the order the constructor promises at every layer; Range follows the bottom layer; the order functions of the constructors are evaluated on every way two keys can compare"},
	{ID: "S08", Methods: all, Ctors: true, Rules: with(core, "range-*", "value-cell", "value-foreign", "cell-immutable", "cast"),
		Text: "Range passes every entry of the bottom layer it observed present, with its own key and value, skips one only after observing it absent, moves strictly forward, and ends only when told to stop or at the end"},
	{ID: "S09", Methods: all, Ctors: true, Rules: with(core, "len-*", "ctor-length"),
		Text: "every path that links an entry adds one to the length before the entry can be removed, every path that removes one subtracts one, no other path touches it"},
	{ID: "S10", Methods: []string{"LoadOrStoreLazy"}, Rules: with(core, "lazy-*", "callback-dirty", "value-foreign", "result", "result-key", "result-present"),
		Text: "on every path the function is called at most once, only while the validated neighbours are held, and its result is what is stored and returned"},
	{ID: "L01", Methods: all, Rules: []string{"lock-leak", "unlock-held"},
		Text: "at every exit, including the unwinding of a panic or Goexit of a callback, no lock may be held; every unlock is of a held lock"},
	{ID: "L02", Methods: all, Rules: []string{"lock-order", "self-deadlock", "wait-holding", "lock-leak"},
		Text: "every lock is acquired in one common key order with respect to all locks held, never twice, and a loop that retries without progress holds no lock but that of a removed entry"},
	{ID: "L03", Methods: []string{"Range"}, Rules: []string{"callback-*", "lock-leak", "unlock-held", "wait-free"},
		Text: "no lock is held and nothing has been written when Range calls the function"},
	{ID: "L04", Methods: all, Solo: true, Rules: with(core, "solo-retry", "self-deadlock", "lock-leak", "wait-holding"),
		Text: "every loop that may repeat without moving forward is followed from every state in which it can be reached, with no other operation in progress: it is left within three rounds; no operation leaves a lock held, an entry half linked or half removed, which others wait for"},
	{ID: "C01", Methods: all, Cost: true, Rules: []string{"search-*", "hl-*", "init-level", "linked-complete", "link-*", "unlink-complete", "height-*", "len-result"},
		Extra: []func(r *run){(*run).heights},
		Text:  "every read of a successor by a search happens at an entry before the key, at a layer at which the search reached it or whose upper layer ended there, starting at the highest level; entries are linked with every height and at all layers below it; the distribution of the drawn heights is computed and decays by a factor between 1/16 and 1/2 per layer"},
	{ID: "W01", Methods: []string{"Load", "Range", "Len"}, Rules: []string{"wait-free"},
		Text: "no lock, no write, and each back edge of each loop moves a bounded counter or the cursor strictly forward"},
	{ID: "R01", Methods: all, Rules: []string{"race", "cell-immutable", "node-overwrite", "map-overwrite", "global-write", "extra-shared", "link-held", "value-cell", "flag-store"},
		Text: "every access to a place of a shared object is classified: plain accesses only to immutable places, to unpublished objects, or to successors of entries whose lock is held (reads); all writes to published places are atomic"},
	{ID: "M01", Methods: all, Ctors: true, Rules: []string{"nil-deref", "bounds", "panic", "layer-bound", "link-height", "link-level", "unlink-level", "unlock-held", "value-cell", "cast", "init-level", "hl-*", "ctor-*", "init-flags", "linked-complete", "unlink-complete"},
		Text: "every dereference, index, type assertion and conversion on every path is shown safe for every height up to the maximum"},
	{ID: "M02", Methods: all, Rules: []string{"cell-immutable", "value-cell", "cast", "node-overwrite", "init-key", "value-foreign", "value-token", "link-value", "range-key", "range-value", "result-key", "race"},
		Only: map[string][]string{"result": {"Load", "LoadAndDelete", "LoadOrStore", "LoadOrStoreLazy"}},
		Text: "value cells are private copies, frozen when published; every internal pointer is converted back to the type it came from"},
	{ID: "M03", Methods: all, Ctors: true, Rules: nil, Extra: []func(*run){alignment},
		Text: "the offset of every place that is accessed with a 64-bit atomic operation is computed for the 32-bit architectures and must be a multiple of 8"},
	{ID: "K01", Methods: all, Ctors: true, Insts: isFloat, Rules: []string{"*"}, Extra: []func(*run){comparators},
		Text: "the operations of New and NewDesc maps are analysed with keys that may be NaN, under a total preorder with NaN at one end; the order functions of NewFloat32/64(Desc) are evaluated on every way two keys can compare, NaN included"},
	{ID: "K02", Methods: all, Ctors: true, Rules: with(core, "absent", "store-done", "range-*", "result", "result-key", "result-present", "value-foreign", "less-order", "bounds", "panic", "nil-deref"),
		Text: "the key and value of the head entry never take part in a decision, and keys reach decisions only through comparisons with keys of entries"},
	{ID: "K03", Methods: all, Ctors: true, Insts: isFunc, Rules: []string{"less-key", "less-only", "less-order", "init-key", "link-value", "node-overwrite", "ctor-less", "race"},
		Text: "both arguments of every call of the given function are the key of the operation or the key of an entry, never the key of the head entry or a made up value; the constructor stores the given function itself"},
	{ID: "H01", Methods: all, Ctors: true, Rules: with(core, "ctor-level", "ctor-header", "bounds", "nil-deref", "absent"),
		Text: "highestLevel changes only by compare-and-swap to a larger value within the capacity, before an entry of that height is linked; heights are within 1..capacity"},
	{ID: "H02", Methods: all, Rules: with(core),
		Only: map[string][]string{"result": {"Delete", "LoadAndDelete"}},
		Text: "every path that removed an entry unlinks it at each of its layers from its current, held, unmarked predecessor"},
	{ID: "A01", Ctors: true, Rules: []string{"ctor-*"}, Extra: []func(*run){api},
		Text: "the API is type-checked for every constructor and platform; constructors return new, empty maps"},
	{ID: "A02", Methods: all, Ctors: true, Rules: []string{"global-*", "ctor-new", "ctor-header", "extra-shared", "map-overwrite"}, Extra: []func(*run){globals},
		Text: "no operation reads or writes mutable package-level state; constructors return maps with a head entry of their own"},
	{ID: "G01", Methods: all, Ctors: true, Insts: anyCtor, Rules: []string{"*"}, Extra: []func(*run){generated},
		Text: "the package is regenerated into a scratch copy, compared with the documented API and analysed in full"},
}

func ruleMatch(pat, rule string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(rule, strings.TrimSuffix(pat, "*"))
	}
	return pat == rule
}

// concerns reports whether a finding decides the property.
func (p *Prop) concerns(f *engine.Finding) bool {
	if f.Rule == "undecided" {
		return true
	}
	for _, r := range p.Rules {
		if ruleMatch(r, f.Rule) {
			return true
		}
	}
	for r, ms := range p.Only {
		if !ruleMatch(r, f.Rule) {
			continue
		}
		for _, m := range ms {
			if m == f.Entry {
				return true
			}
		}
	}
	return false
}
