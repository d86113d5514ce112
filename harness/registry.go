package main

// The documented vocabulary of the html, svg, htmx and css packages: an oracle written down once, from the
// documentation, and not derived from the code under test when the checks run.

import (
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

type helper struct {
	Pkg, Func string
	Name      string // the documented name of the element, attribute or css property
	Kind      string // elem, void, attr, bool, delim or style
	Delim     string
	fn        any
}

var helpers = []helper{
	{"html", "A", "a", "elem", "", html.A},
	{"html", "Abbr", "abbr", "elem", "", html.Abbr},
	{"html", "Address", "address", "elem", "", html.Address},
	{"html", "Area", "area", "void", "", html.Area},
	{"html", "Article", "article", "elem", "", html.Article},
	{"html", "Aside", "aside", "elem", "", html.Aside},
	{"html", "Audio", "audio", "elem", "", html.Audio},
	{"html", "B", "b", "elem", "", html.B},
	{"html", "Base", "base", "void", "", html.Base},
	{"html", "BlockQuote", "blockquote", "elem", "", html.BlockQuote},
	{"html", "Body", "body", "elem", "", html.Body},
	{"html", "Br", "br", "void", "", html.Br},
	{"html", "Button", "button", "elem", "", html.Button},
	{"html", "Canvas", "canvas", "elem", "", html.Canvas},
	{"html", "Caption", "caption", "elem", "", html.Caption},
	{"html", "Cite", "cite", "elem", "", html.Cite},
	{"html", "Code", "code", "elem", "", html.Code},
	{"html", "Col", "col", "void", "", html.Col},
	{"html", "ColGroup", "colgroup", "elem", "", html.ColGroup},
	{"html", "DataElement", "data", "elem", "", html.DataElement},
	{"html", "DataList", "datalist", "elem", "", html.DataList},
	{"html", "Dd", "dd", "elem", "", html.Dd},
	{"html", "Del", "del", "elem", "", html.Del},
	{"html", "Dfn", "dfn", "elem", "", html.Dfn},
	{"html", "Dt", "dt", "elem", "", html.Dt},
	{"html", "Details", "details", "elem", "", html.Details},
	{"html", "Dialog", "dialog", "elem", "", html.Dialog},
	{"html", "Div", "div", "elem", "", html.Div},
	{"html", "Dl", "dl", "elem", "", html.Dl},
	{"html", "Em", "em", "elem", "", html.Em},
	{"html", "Embed", "embed", "void", "", html.Embed},
	{"html", "Form", "form", "elem", "", html.Form},
	{"html", "FieldSet", "fieldset", "elem", "", html.FieldSet},
	{"html", "FigCaption", "figcaption", "elem", "", html.FigCaption},
	{"html", "Figure", "figure", "elem", "", html.Figure},
	{"html", "Footer", "footer", "elem", "", html.Footer},
	{"html", "H1", "h1", "elem", "", html.H1},
	{"html", "H2", "h2", "elem", "", html.H2},
	{"html", "H3", "h3", "elem", "", html.H3},
	{"html", "H4", "h4", "elem", "", html.H4},
	{"html", "H5", "h5", "elem", "", html.H5},
	{"html", "H6", "h6", "elem", "", html.H6},
	{"html", "Head", "head", "elem", "", html.Head},
	{"html", "Header", "header", "elem", "", html.Header},
	{"html", "HGroup", "hgroup", "elem", "", html.HGroup},
	{"html", "Hr", "hr", "void", "", html.Hr},
	{"html", "Html", "html", "elem", "", html.Html},
	{"html", "I", "i", "elem", "", html.I},
	{"html", "IFrame", "iframe", "elem", "", html.IFrame},
	{"html", "Img", "img", "void", "", html.Img},
	{"html", "Input", "input", "void", "", html.Input},
	{"html", "Ins", "ins", "elem", "", html.Ins},
	{"html", "Kbd", "kbd", "elem", "", html.Kbd},
	{"html", "Label", "label", "elem", "", html.Label},
	{"html", "Legend", "legend", "elem", "", html.Legend},
	{"html", "Li", "li", "elem", "", html.Li},
	{"html", "Link", "link", "void", "", html.Link},
	{"html", "Main", "main", "elem", "", html.Main},
	{"html", "Mark", "mark", "elem", "", html.Mark},
	{"html", "Menu", "menu", "elem", "", html.Menu},
	{"html", "Meta", "meta", "void", "", html.Meta},
	{"html", "Meter", "meter", "elem", "", html.Meter},
	{"html", "Nav", "nav", "elem", "", html.Nav},
	{"html", "NoScript", "noscript", "elem", "", html.NoScript},
	{"html", "Object", "object", "elem", "", html.Object},
	{"html", "Ol", "ol", "elem", "", html.Ol},
	{"html", "OptGroup", "optgroup", "elem", "", html.OptGroup},
	{"html", "Option", "option", "elem", "", html.Option},
	{"html", "P", "p", "elem", "", html.P},
	{"html", "Para", "p", "elem", "", html.Para},
	{"html", "Param", "param", "void", "", html.Param},
	{"html", "Picture", "picture", "elem", "", html.Picture},
	{"html", "Pre", "pre", "elem", "", html.Pre},
	{"html", "Progress", "progress", "elem", "", html.Progress},
	{"html", "Q", "q", "elem", "", html.Q},
	{"html", "S", "s", "elem", "", html.S},
	{"html", "Samp", "samp", "elem", "", html.Samp},
	{"html", "Script", "script", "elem", "", html.Script},
	{"html", "Section", "section", "elem", "", html.Section},
	{"html", "Select", "select", "elem", "", html.Select},
	{"html", "Slot", "slot", "elem", "", html.Slot},
	{"html", "Small", "small", "elem", "", html.Small},
	{"html", "Source", "source", "void", "", html.Source},
	{"html", "Span", "span", "elem", "", html.Span},
	{"html", "Strong", "strong", "elem", "", html.Strong},
	{"html", "StyleElement", "style", "elem", "", html.StyleElement},
	{"html", "Sub", "sub", "elem", "", html.Sub},
	{"html", "Sup", "sup", "elem", "", html.Sup},
	{"html", "Summary", "summary", "elem", "", html.Summary},
	{"html", "Table", "table", "elem", "", html.Table},
	{"html", "TBody", "tbody", "elem", "", html.TBody},
	{"html", "Td", "td", "elem", "", html.Td},
	{"html", "Template", "template", "elem", "", html.Template},
	{"html", "Textarea", "textarea", "elem", "", html.Textarea},
	{"html", "TFoot", "tfoot", "elem", "", html.TFoot},
	{"html", "Th", "th", "elem", "", html.Th},
	{"html", "THead", "thead", "elem", "", html.THead},
	{"html", "Time", "time", "elem", "", html.Time},
	{"html", "TitleElement", "title", "elem", "", html.TitleElement},
	{"html", "Tr", "tr", "elem", "", html.Tr},
	{"html", "Ul", "ul", "elem", "", html.Ul},
	{"html", "U", "u", "elem", "", html.U},
	{"html", "Var", "var", "elem", "", html.Var},
	{"html", "Video", "video", "elem", "", html.Video},
	{"html", "Wbr", "wbr", "void", "", html.Wbr},
	{"html", "Bdi", "bdi", "elem", "", html.Bdi},
	{"html", "Bdo", "bdo", "elem", "", html.Bdo},
	{"html", "Map", "map", "elem", "", html.Map},
	{"html", "Output", "output", "elem", "", html.Output},
	{"html", "Rp", "rp", "elem", "", html.Rp},
	{"html", "Rt", "rt", "elem", "", html.Rt},
	{"html", "Ruby", "ruby", "elem", "", html.Ruby},
	{"html", "Search", "search", "elem", "", html.Search},
	{"html", "Track", "track", "elem", "", html.Track},
	{"html", "Async", "async", "bool", "", html.Async},
	{"html", "AutoFocus", "autofocus", "bool", "", html.AutoFocus},
	{"html", "AutoPlay", "autoplay", "bool", "", html.AutoPlay},
	{"html", "Checked", "checked", "bool", "", html.Checked},
	{"html", "Controls", "controls", "bool", "", html.Controls},
	{"html", "CrossOrigin", "crossorigin", "attr", "", html.CrossOrigin},
	{"html", "DateTime", "datetime", "attr", "", html.DateTime},
	{"html", "Defer", "defer", "bool", "", html.Defer},
	{"html", "Disabled", "disabled", "bool", "", html.Disabled},
	{"html", "Download", "download", "attr", "", html.Download},
	{"html", "Draggable", "draggable", "attr", "", html.Draggable},
	{"html", "Loop", "loop", "bool", "", html.Loop},
	{"html", "Multiple", "multiple", "bool", "", html.Multiple},
	{"html", "Muted", "muted", "bool", "", html.Muted},
	{"html", "PlaysInline", "playsinline", "bool", "", html.PlaysInline},
	{"html", "ReadOnly", "readonly", "bool", "", html.ReadOnly},
	{"html", "Required", "required", "bool", "", html.Required},
	{"html", "Selected", "selected", "bool", "", html.Selected},
	{"html", "Accept", "accept", "attr", "", html.Accept},
	{"html", "Action", "action", "attr", "", html.Action},
	{"html", "Alt", "alt", "attr", "", html.Alt},
	{"html", "As", "as", "attr", "", html.As},
	{"html", "AutoComplete", "autocomplete", "attr", "", html.AutoComplete},
	{"html", "Charset", "charset", "attr", "", html.Charset},
	{"html", "CiteAttr", "cite", "attr", "", html.CiteAttr},
	{"html", "Class", "class", "delim", " ", html.Class},
	{"html", "Cols", "cols", "attr", "", html.Cols},
	{"html", "ColSpan", "colspan", "attr", "", html.ColSpan},
	{"html", "Content", "content", "attr", "", html.Content},
	{"html", "ContentEditable", "contenteditable", "attr", "", html.ContentEditable},
	{"html", "Dir", "dir", "attr", "", html.Dir},
	{"html", "EncType", "enctype", "attr", "", html.EncType},
	{"html", "For", "for", "attr", "", html.For},
	{"html", "FormAttr", "form", "attr", "", html.FormAttr},
	{"html", "NoValidate", "novalidate", "bool", "", html.NoValidate},
	{"html", "FormNoValidate", "formnovalidate", "bool", "", html.FormNoValidate},
	{"html", "Height", "height", "attr", "", html.Height},
	{"html", "Hidden", "hidden", "bool", "", html.Hidden},
	{"html", "Href", "href", "attr", "", html.Href},
	{"html", "Id", "id", "attr", "", html.Id},
	{"html", "Integrity", "integrity", "attr", "", html.Integrity},
	{"html", "Lang", "lang", "attr", "", html.Lang},
	{"html", "List", "list", "attr", "", html.List},
	{"html", "Loading", "loading", "attr", "", html.Loading},
	{"html", "Max", "max", "attr", "", html.Max},
	{"html", "MaxLength", "maxlength", "attr", "", html.MaxLength},
	{"html", "Method", "method", "attr", "", html.Method},
	{"html", "Min", "min", "attr", "", html.Min},
	{"html", "MinLength", "minlength", "attr", "", html.MinLength},
	{"html", "Name", "name", "attr", "", html.Name},
	{"html", "Pattern", "pattern", "attr", "", html.Pattern},
	{"html", "Placeholder", "placeholder", "attr", "", html.Placeholder},
	{"html", "PopOver", "popover", "attr", "", html.PopOver},
	{"html", "PopOverTarget", "popovertarget", "attr", "", html.PopOverTarget},
	{"html", "PopOverTargetAction", "popovertargetaction", "attr", "", html.PopOverTargetAction},
	{"html", "Poster", "poster", "attr", "", html.Poster},
	{"html", "Preload", "preload", "attr", "", html.Preload},
	{"html", "ReferrerPolicy", "referrerpolicy", "attr", "", html.ReferrerPolicy},
	{"html", "Rel", "rel", "attr", "", html.Rel},
	{"html", "Role", "role", "attr", "", html.Role},
	{"html", "Rows", "rows", "attr", "", html.Rows},
	{"html", "RowSpan", "rowspan", "attr", "", html.RowSpan},
	{"html", "SlotAttr", "slot", "attr", "", html.SlotAttr},
	{"html", "Src", "src", "attr", "", html.Src},
	{"html", "SrcSet", "srcset", "attr", "", html.SrcSet},
	{"html", "Step", "step", "attr", "", html.Step},
	{"html", "Style", "style", "delim", "; ", html.Style},
	{"html", "TabIndex", "tabindex", "attr", "", html.TabIndex},
	{"html", "Target", "target", "attr", "", html.Target},
	{"html", "Title", "title", "attr", "", html.Title},
	{"html", "Type", "type", "attr", "", html.Type},
	{"html", "Value", "value", "attr", "", html.Value},
	{"html", "Width", "width", "attr", "", html.Width},
	{"html", "AllowFullScreen", "allowfullscreen", "bool", "", html.AllowFullScreen},
	{"html", "Default", "default", "bool", "", html.Default},
	{"html", "Inert", "inert", "bool", "", html.Inert},
	{"html", "IsMap", "ismap", "bool", "", html.IsMap},
	{"html", "ItemScope", "itemscope", "bool", "", html.ItemScope},
	{"html", "NoModule", "nomodule", "bool", "", html.NoModule},
	{"html", "Open", "open", "bool", "", html.Open},
	{"html", "Reversed", "reversed", "bool", "", html.Reversed},
	{"html", "Spellcheck", "spellcheck", "bool", "", html.Spellcheck},
	{"html", "Translate", "translate", "bool", "", html.Translate},
	{"html", "AriaAtomic", "aria-atomic", "attr", "", html.AriaAtomic},
	{"html", "AriaBusy", "aria-busy", "attr", "", html.AriaBusy},
	{"html", "AriaChecked", "aria-checked", "attr", "", html.AriaChecked},
	{"html", "AriaControls", "aria-controls", "attr", "", html.AriaControls},
	{"html", "AriaDescribedBy", "aria-describedby", "attr", "", html.AriaDescribedBy},
	{"html", "AriaDisabled", "aria-disabled", "attr", "", html.AriaDisabled},
	{"html", "AriaExpanded", "aria-expanded", "attr", "", html.AriaExpanded},
	{"html", "AriaFlowTo", "aria-flowto", "attr", "", html.AriaFlowTo},
	{"html", "AriaHidden", "aria-hidden", "attr", "", html.AriaHidden},
	{"html", "AriaInvalid", "aria-invalid", "attr", "", html.AriaInvalid},
	{"html", "AriaLabel", "aria-label", "attr", "", html.AriaLabel},
	{"html", "AriaLabelledBy", "aria-labelledby", "attr", "", html.AriaLabelledBy},
	{"html", "AriaLive", "aria-live", "attr", "", html.AriaLive},
	{"html", "AriaOwns", "aria-owns", "attr", "", html.AriaOwns},
	{"html", "AriaPlaceholder", "aria-placeholder", "attr", "", html.AriaPlaceholder},
	{"html", "AriaPosInSet", "aria-posinset", "attr", "", html.AriaPosInSet},
	{"html", "AriaPressed", "aria-pressed", "attr", "", html.AriaPressed},
	{"html", "AriaReadonly", "aria-readonly", "attr", "", html.AriaReadonly},
	{"html", "AriaRelevant", "aria-relevant", "attr", "", html.AriaRelevant},
	{"html", "AriaRequired", "aria-required", "attr", "", html.AriaRequired},
	{"html", "AriaSelected", "aria-selected", "attr", "", html.AriaSelected},
	{"html", "AriaSetSize", "aria-setsize", "attr", "", html.AriaSetSize},
	{"html", "AriaValueMax", "aria-valuemax", "attr", "", html.AriaValueMax},
	{"html", "AriaValueMin", "aria-valuemin", "attr", "", html.AriaValueMin},
	{"html", "AriaValueNow", "aria-valuenow", "attr", "", html.AriaValueNow},
	{"html", "AriaValueText", "aria-valuetext", "attr", "", html.AriaValueText},
	{"html", "OnAbort", "onabort", "attr", "", html.OnAbort},
	{"html", "OnBeforeUnload", "onbeforeunload", "attr", "", html.OnBeforeUnload},
	{"html", "OnBlur", "onblur", "attr", "", html.OnBlur},
	{"html", "OnCanPlay", "oncanplay", "attr", "", html.OnCanPlay},
	{"html", "OnCanPlayThrough", "oncanplaythrough", "attr", "", html.OnCanPlayThrough},
	{"html", "OnChange", "onchange", "attr", "", html.OnChange},
	{"html", "OnClick", "onclick", "attr", "", html.OnClick},
	{"html", "OnContextMenu", "oncontextmenu", "attr", "", html.OnContextMenu},
	{"html", "OnCopy", "oncopy", "attr", "", html.OnCopy},
	{"html", "OnCut", "oncut", "attr", "", html.OnCut},
	{"html", "OnDblClick", "ondblclick", "attr", "", html.OnDblClick},
	{"html", "OnDrag", "ondrag", "attr", "", html.OnDrag},
	{"html", "OnDragEnd", "ondragend", "attr", "", html.OnDragEnd},
	{"html", "OnDragEnter", "ondragenter", "attr", "", html.OnDragEnter},
	{"html", "OnDragLeave", "ondragleave", "attr", "", html.OnDragLeave},
	{"html", "OnDragOver", "ondragover", "attr", "", html.OnDragOver},
	{"html", "OnDragStart", "ondragstart", "attr", "", html.OnDragStart},
	{"html", "OnDrop", "ondrop", "attr", "", html.OnDrop},
	{"html", "OnDurationChange", "ondurationchange", "attr", "", html.OnDurationChange},
	{"html", "OnEnded", "onended", "attr", "", html.OnEnded},
	{"html", "OnError", "onerror", "attr", "", html.OnError},
	{"html", "OnFocus", "onfocus", "attr", "", html.OnFocus},
	{"html", "OnHashChange", "onhashchange", "attr", "", html.OnHashChange},
	{"html", "OnInput", "oninput", "attr", "", html.OnInput},
	{"html", "OnInvalid", "oninvalid", "attr", "", html.OnInvalid},
	{"html", "OnKeyDown", "onkeydown", "attr", "", html.OnKeyDown},
	{"html", "OnKeyPress", "onkeypress", "attr", "", html.OnKeyPress},
	{"html", "OnKeyUp", "onkeyup", "attr", "", html.OnKeyUp},
	{"html", "OnLoad", "onload", "attr", "", html.OnLoad},
	{"html", "OnLoadedData", "onloadeddata", "attr", "", html.OnLoadedData},
	{"html", "OnLoadedMetadata", "onloadedmetadata", "attr", "", html.OnLoadedMetadata},
	{"html", "OnMouseDown", "onmousedown", "attr", "", html.OnMouseDown},
	{"html", "OnMouseEnter", "onmouseenter", "attr", "", html.OnMouseEnter},
	{"html", "OnMouseLeave", "onmouseleave", "attr", "", html.OnMouseLeave},
	{"html", "OnMouseMove", "onmousemove", "attr", "", html.OnMouseMove},
	{"html", "OnMouseOut", "onmouseout", "attr", "", html.OnMouseOut},
	{"html", "OnMouseOver", "onmouseover", "attr", "", html.OnMouseOver},
	{"html", "OnMouseUp", "onmouseup", "attr", "", html.OnMouseUp},
	{"html", "OnPageHide", "onpagehide", "attr", "", html.OnPageHide},
	{"html", "OnPageShow", "onpageshow", "attr", "", html.OnPageShow},
	{"html", "OnPaste", "onpaste", "attr", "", html.OnPaste},
	{"html", "OnPause", "onpause", "attr", "", html.OnPause},
	{"html", "OnPlay", "onplay", "attr", "", html.OnPlay},
	{"html", "OnPlaying", "onplaying", "attr", "", html.OnPlaying},
	{"html", "OnPopState", "onpopstate", "attr", "", html.OnPopState},
	{"html", "OnProgress", "onprogress", "attr", "", html.OnProgress},
	{"html", "OnRateChange", "onratechange", "attr", "", html.OnRateChange},
	{"html", "OnReset", "onreset", "attr", "", html.OnReset},
	{"html", "OnResize", "onresize", "attr", "", html.OnResize},
	{"html", "OnScroll", "onscroll", "attr", "", html.OnScroll},
	{"html", "OnSeeked", "onseeked", "attr", "", html.OnSeeked},
	{"html", "OnSeeking", "onseeking", "attr", "", html.OnSeeking},
	{"html", "OnSelect", "onselect", "attr", "", html.OnSelect},
	{"html", "OnStalled", "onstalled", "attr", "", html.OnStalled},
	{"html", "OnSubmit", "onsubmit", "attr", "", html.OnSubmit},
	{"html", "OnSuspend", "onsuspend", "attr", "", html.OnSuspend},
	{"html", "OnTimeUpdate", "ontimeupdate", "attr", "", html.OnTimeUpdate},
	{"html", "OnToggle", "ontoggle", "attr", "", html.OnToggle},
	{"html", "OnUnload", "onunload", "attr", "", html.OnUnload},
	{"html", "OnVolumeChange", "onvolumechange", "attr", "", html.OnVolumeChange},
	{"html", "OnWaiting", "onwaiting", "attr", "", html.OnWaiting},
	{"html", "OnPointerDown", "onpointerdown", "attr", "", html.OnPointerDown},
	{"html", "OnPointerUp", "onpointerup", "attr", "", html.OnPointerUp},
	{"html", "OnPointerMove", "onpointermove", "attr", "", html.OnPointerMove},
	{"html", "OnPointerEnter", "onpointerenter", "attr", "", html.OnPointerEnter},
	{"html", "OnPointerLeave", "onpointerleave", "attr", "", html.OnPointerLeave},
	{"html", "OnPointerOver", "onpointerover", "attr", "", html.OnPointerOver},
	{"html", "OnPointerOut", "onpointerout", "attr", "", html.OnPointerOut},
	{"html", "OnPointerCancel", "onpointercancel", "attr", "", html.OnPointerCancel},
	{"html", "OnTouchStart", "ontouchstart", "attr", "", html.OnTouchStart},
	{"html", "OnTouchMove", "ontouchmove", "attr", "", html.OnTouchMove},
	{"html", "OnTouchEnd", "ontouchend", "attr", "", html.OnTouchEnd},
	{"html", "OnTouchCancel", "ontouchcancel", "attr", "", html.OnTouchCancel},
	{"html", "OnAnimationStart", "onanimationstart", "attr", "", html.OnAnimationStart},
	{"html", "OnAnimationEnd", "onanimationend", "attr", "", html.OnAnimationEnd},
	{"html", "OnAnimationIteration", "onanimationiteration", "attr", "", html.OnAnimationIteration},
	{"html", "OnTransitionEnd", "ontransitionend", "attr", "", html.OnTransitionEnd},
	{"html", "OnBeforeInput", "onbeforeinput", "attr", "", html.OnBeforeInput},
	{"html", "OnSlotChange", "onslotchange", "attr", "", html.OnSlotChange},
	{"html", "OnFormData", "onformdata", "attr", "", html.OnFormData},
	{"html", "AccessKey", "accesskey", "attr", "", html.AccessKey},
	{"html", "AutoCapitalize", "autocapitalize", "attr", "", html.AutoCapitalize},
	{"html", "AutoCorrect", "autocorrect", "attr", "", html.AutoCorrect},
	{"html", "EnterKeyHint", "enterkeyhint", "attr", "", html.EnterKeyHint},
	{"html", "ExportParts", "exportparts", "attr", "", html.ExportParts},
	{"html", "InputMode", "inputmode", "attr", "", html.InputMode},
	{"html", "Is", "is", "attr", "", html.Is},
	{"html", "ItemId", "itemid", "attr", "", html.ItemId},
	{"html", "ItemProp", "itemprop", "attr", "", html.ItemProp},
	{"html", "ItemRef", "itemref", "attr", "", html.ItemRef},
	{"html", "ItemType", "itemtype", "attr", "", html.ItemType},
	{"html", "Nonce", "nonce", "attr", "", html.Nonce},
	{"html", "Part", "part", "attr", "", html.Part},
	{"html", "WritingSuggestions", "writingsuggestions", "attr", "", html.WritingSuggestions},
	{"svg", "Svg", "svg", "elem", "", svg.Svg},
	{"svg", "AltGlyph", "altGlyph", "elem", "", svg.AltGlyph},
	{"svg", "Animate", "animate", "elem", "", svg.Animate},
	{"svg", "AnimateMotion", "animateMotion", "elem", "", svg.AnimateMotion},
	{"svg", "AnimateTransform", "animateTransform", "elem", "", svg.AnimateTransform},
	{"svg", "Circle", "circle", "elem", "", svg.Circle},
	{"svg", "ClipPath", "clipPath", "elem", "", svg.ClipPath},
	{"svg", "Defs", "defs", "elem", "", svg.Defs},
	{"svg", "Desc", "desc", "elem", "", svg.Desc},
	{"svg", "Discard", "discard", "elem", "", svg.Discard},
	{"svg", "Ellipse", "ellipse", "elem", "", svg.Ellipse},
	{"svg", "FeBlend", "feBlend", "elem", "", svg.FeBlend},
	{"svg", "FeColorMatrix", "feColorMatrix", "elem", "", svg.FeColorMatrix},
	{"svg", "FeComponentTransfer", "feComponentTransfer", "elem", "", svg.FeComponentTransfer},
	{"svg", "FeComposite", "feComposite", "elem", "", svg.FeComposite},
	{"svg", "FeConvolveMatrix", "feConvolveMatrix", "elem", "", svg.FeConvolveMatrix},
	{"svg", "FeDiffuseLighting", "feDiffuseLighting", "elem", "", svg.FeDiffuseLighting},
	{"svg", "FeDisplacementMap", "feDisplacementMap", "elem", "", svg.FeDisplacementMap},
	{"svg", "FeDistantLight", "feDistantLight", "elem", "", svg.FeDistantLight},
	{"svg", "FeDropShadow", "feDropShadow", "elem", "", svg.FeDropShadow},
	{"svg", "FeFlood", "feFlood", "elem", "", svg.FeFlood},
	{"svg", "FeFuncA", "feFuncA", "elem", "", svg.FeFuncA},
	{"svg", "FeFuncB", "feFuncB", "elem", "", svg.FeFuncB},
	{"svg", "FeFuncG", "feFuncG", "elem", "", svg.FeFuncG},
	{"svg", "FeFuncR", "feFuncR", "elem", "", svg.FeFuncR},
	{"svg", "FeGaussianBlur", "feGaussianBlur", "elem", "", svg.FeGaussianBlur},
	{"svg", "FeImage", "feImage", "elem", "", svg.FeImage},
	{"svg", "FeMerge", "feMerge", "elem", "", svg.FeMerge},
	{"svg", "FeMergeNode", "feMergeNode", "elem", "", svg.FeMergeNode},
	{"svg", "FeMorphology", "feMorphology", "elem", "", svg.FeMorphology},
	{"svg", "FeOffset", "feOffset", "elem", "", svg.FeOffset},
	{"svg", "FePointLight", "fePointLight", "elem", "", svg.FePointLight},
	{"svg", "FeSpecularLighting", "feSpecularLighting", "elem", "", svg.FeSpecularLighting},
	{"svg", "FeSpotLight", "feSpotLight", "elem", "", svg.FeSpotLight},
	{"svg", "FeTile", "feTile", "elem", "", svg.FeTile},
	{"svg", "FeTurbulence", "feTurbulence", "elem", "", svg.FeTurbulence},
	{"svg", "Filter", "filter", "elem", "", svg.Filter},
	{"svg", "ForeignObject", "foreignObject", "elem", "", svg.ForeignObject},
	{"svg", "G", "g", "elem", "", svg.G},
	{"svg", "Glyph", "glyph", "elem", "", svg.Glyph},
	{"svg", "Line", "line", "elem", "", svg.Line},
	{"svg", "LinearGradient", "linearGradient", "elem", "", svg.LinearGradient},
	{"svg", "Marker", "marker", "elem", "", svg.Marker},
	{"svg", "Mask", "mask", "elem", "", svg.Mask},
	{"svg", "Metadata", "metadata", "elem", "", svg.Metadata},
	{"svg", "Mpath", "mpath", "elem", "", svg.Mpath},
	{"svg", "Path", "path", "elem", "", svg.Path},
	{"svg", "Pattern", "pattern", "elem", "", svg.Pattern},
	{"svg", "Polygon", "polygon", "elem", "", svg.Polygon},
	{"svg", "Polyline", "polyline", "elem", "", svg.Polyline},
	{"svg", "RadialGradient", "radialGradient", "elem", "", svg.RadialGradient},
	{"svg", "Rect", "rect", "elem", "", svg.Rect},
	{"svg", "Script", "script", "elem", "", svg.Script},
	{"svg", "Set", "set", "elem", "", svg.Set},
	{"svg", "SolidColor", "solidcolor", "elem", "", svg.SolidColor},
	{"svg", "Stop", "stop", "elem", "", svg.Stop},
	{"svg", "StyleElement", "style", "elem", "", svg.StyleElement},
	{"svg", "Symbol", "symbol", "elem", "", svg.Symbol},
	{"svg", "TextElement", "text", "elem", "", svg.TextElement},
	{"svg", "TextPath", "textPath", "elem", "", svg.TextPath},
	{"svg", "Title", "title", "elem", "", svg.Title},
	{"svg", "TRef", "tref", "elem", "", svg.TRef},
	{"svg", "TSpan", "tspan", "elem", "", svg.TSpan},
	{"svg", "Use", "use", "elem", "", svg.Use},
	{"svg", "Switch", "switch", "elem", "", svg.Switch},
	{"svg", "View", "view", "elem", "", svg.View},
	{"svg", "Accumulate", "accumulate", "attr", "", svg.Accumulate},
	{"svg", "Additive", "additive", "attr", "", svg.Additive},
	{"svg", "AlignmentBaseline", "alignment-baseline", "attr", "", svg.AlignmentBaseline},
	{"svg", "AttributeName", "attributeName", "attr", "", svg.AttributeName},
	{"svg", "AttributeType", "attributeType", "attr", "", svg.AttributeType},
	{"svg", "BaselineShift", "baseline-shift", "attr", "", svg.BaselineShift},
	{"svg", "Begin", "begin", "attr", "", svg.Begin},
	{"svg", "By", "by", "attr", "", svg.By},
	{"svg", "CalcMode", "calcMode", "attr", "", svg.CalcMode},
	{"svg", "Class", "class", "delim", " ", svg.Class},
	{"svg", "Clip", "clip", "attr", "", svg.Clip},
	{"svg", "ClipPathAttr", "clip-path", "attr", "", svg.ClipPathAttr},
	{"svg", "ClipRule", "clip-rule", "attr", "", svg.ClipRule},
	{"svg", "Color", "color", "attr", "", svg.Color},
	{"svg", "ColorInterpolation", "color-interpolation", "attr", "", svg.ColorInterpolation},
	{"svg", "ColorInterpolationFilters", "color-interpolation-filters", "attr", "", svg.ColorInterpolationFilters},
	{"svg", "ColorProfile", "color-profile", "attr", "", svg.ColorProfile},
	{"svg", "ColorRendering", "color-rendering", "attr", "", svg.ColorRendering},
	{"svg", "Cursor", "cursor", "attr", "", svg.Cursor},
	{"svg", "Cx", "cx", "attr", "", svg.Cx},
	{"svg", "Cy", "cy", "attr", "", svg.Cy},
	{"svg", "D", "d", "attr", "", svg.D},
	{"svg", "Direction", "direction", "attr", "", svg.Direction},
	{"svg", "Display", "display", "attr", "", svg.Display},
	{"svg", "DominantBaseline", "dominant-baseline", "attr", "", svg.DominantBaseline},
	{"svg", "Dur", "dur", "attr", "", svg.Dur},
	{"svg", "Dx", "dx", "attr", "", svg.Dx},
	{"svg", "Dy", "dy", "attr", "", svg.Dy},
	{"svg", "EnableBackground", "enable-background", "attr", "", svg.EnableBackground},
	{"svg", "End", "end", "attr", "", svg.End},
	{"svg", "ExternalResourcesRequired", "externalResourcesRequired", "attr", "", svg.ExternalResourcesRequired},
	{"svg", "Fill", "fill", "attr", "", svg.Fill},
	{"svg", "FillOpacity", "fill-opacity", "attr", "", svg.FillOpacity},
	{"svg", "FillRule", "fill-rule", "attr", "", svg.FillRule},
	{"svg", "FilterAttr", "filter", "attr", "", svg.FilterAttr},
	{"svg", "FilterUnits", "filterUnits", "attr", "", svg.FilterUnits},
	{"svg", "FloodColor", "flood-color", "attr", "", svg.FloodColor},
	{"svg", "FloodOpacity", "flood-opacity", "attr", "", svg.FloodOpacity},
	{"svg", "FontFamily", "font-family", "attr", "", svg.FontFamily},
	{"svg", "FontSize", "font-size", "attr", "", svg.FontSize},
	{"svg", "FontSizeAdjust", "font-size-adjust", "attr", "", svg.FontSizeAdjust},
	{"svg", "FontStretch", "font-stretch", "attr", "", svg.FontStretch},
	{"svg", "FontStyle", "font-style", "attr", "", svg.FontStyle},
	{"svg", "FontVariant", "font-variant", "attr", "", svg.FontVariant},
	{"svg", "FontWeight", "font-weight", "attr", "", svg.FontWeight},
	{"svg", "From", "from", "attr", "", svg.From},
	{"svg", "Fx", "fx", "attr", "", svg.Fx},
	{"svg", "Fy", "fy", "attr", "", svg.Fy},
	{"svg", "GlyphOrientationHorizontal", "glyph-orientation-horizontal", "attr", "", svg.GlyphOrientationHorizontal},
	{"svg", "GlyphOrientationVertical", "glyph-orientation-vertical", "attr", "", svg.GlyphOrientationVertical},
	{"svg", "GradientTransform", "gradientTransform", "attr", "", svg.GradientTransform},
	{"svg", "GradientUnits", "gradientUnits", "attr", "", svg.GradientUnits},
	{"svg", "Height", "height", "attr", "", svg.Height},
	{"svg", "Href", "href", "attr", "", svg.Href},
	{"svg", "Id", "id", "attr", "", svg.Id},
	{"svg", "ImageRendering", "image-rendering", "attr", "", svg.ImageRendering},
	{"svg", "Kerning", "kerning", "attr", "", svg.Kerning},
	{"svg", "KeyPoints", "keyPoints", "attr", "", svg.KeyPoints},
	{"svg", "KeySplines", "keySplines", "attr", "", svg.KeySplines},
	{"svg", "KeyTimes", "keyTimes", "attr", "", svg.KeyTimes},
	{"svg", "LengthAdjust", "lengthAdjust", "attr", "", svg.LengthAdjust},
	{"svg", "LetterSpacing", "letter-spacing", "attr", "", svg.LetterSpacing},
	{"svg", "LightingColor", "lighting-color", "attr", "", svg.LightingColor},
	{"svg", "MarkerEnd", "marker-end", "attr", "", svg.MarkerEnd},
	{"svg", "MarkerMid", "marker-mid", "attr", "", svg.MarkerMid},
	{"svg", "MarkerStart", "marker-start", "attr", "", svg.MarkerStart},
	{"svg", "MarkerHeight", "markerHeight", "attr", "", svg.MarkerHeight},
	{"svg", "MarkerUnits", "markerUnits", "attr", "", svg.MarkerUnits},
	{"svg", "MarkerWidth", "markerWidth", "attr", "", svg.MarkerWidth},
	{"svg", "MaskAttr", "mask", "attr", "", svg.MaskAttr},
	{"svg", "OnBlur", "onblur", "attr", "", svg.OnBlur},
	{"svg", "OnClick", "onclick", "attr", "", svg.OnClick},
	{"svg", "OnFocus", "onfocus", "attr", "", svg.OnFocus},
	{"svg", "OnLoad", "onload", "attr", "", svg.OnLoad},
	{"svg", "OnMouseDown", "onmousedown", "attr", "", svg.OnMouseDown},
	{"svg", "OnMouseMove", "onmousemove", "attr", "", svg.OnMouseMove},
	{"svg", "OnMouseOut", "onmouseout", "attr", "", svg.OnMouseOut},
	{"svg", "OnMouseOver", "onmouseover", "attr", "", svg.OnMouseOver},
	{"svg", "OnMouseUp", "onmouseup", "attr", "", svg.OnMouseUp},
	{"svg", "OnUnload", "onunload", "attr", "", svg.OnUnload},
	{"svg", "Opacity", "opacity", "attr", "", svg.Opacity},
	{"svg", "Orient", "orient", "attr", "", svg.Orient},
	{"svg", "PathAttr", "path", "attr", "", svg.PathAttr},
	{"svg", "PathLength", "pathLength", "attr", "", svg.PathLength},
	{"svg", "PatternContentUnits", "patternContentUnits", "attr", "", svg.PatternContentUnits},
	{"svg", "PatternTransform", "patternTransform", "attr", "", svg.PatternTransform},
	{"svg", "PatternUnits", "patternUnits", "attr", "", svg.PatternUnits},
	{"svg", "PointerEvents", "pointer-events", "attr", "", svg.PointerEvents},
	{"svg", "Points", "points", "attr", "", svg.Points},
	{"svg", "PreserveAspectRatio", "preserveAspectRatio", "attr", "", svg.PreserveAspectRatio},
	{"svg", "PrimitiveUnits", "primitiveUnits", "attr", "", svg.PrimitiveUnits},
	{"svg", "R", "r", "attr", "", svg.R},
	{"svg", "RefX", "refX", "attr", "", svg.RefX},
	{"svg", "RefY", "refY", "attr", "", svg.RefY},
	{"svg", "RepeatCount", "repeatCount", "attr", "", svg.RepeatCount},
	{"svg", "RepeatDur", "repeatDur", "attr", "", svg.RepeatDur},
	{"svg", "RequiredExtensions", "requiredExtensions", "attr", "", svg.RequiredExtensions},
	{"svg", "RequiredFeatures", "requiredFeatures", "attr", "", svg.RequiredFeatures},
	{"svg", "Rotate", "rotate", "attr", "", svg.Rotate},
	{"svg", "Rx", "rx", "attr", "", svg.Rx},
	{"svg", "Ry", "ry", "attr", "", svg.Ry},
	{"svg", "ShapeRendering", "shape-rendering", "attr", "", svg.ShapeRendering},
	{"svg", "SpreadMethod", "spreadMethod", "attr", "", svg.SpreadMethod},
	{"svg", "StopColor", "stop-color", "attr", "", svg.StopColor},
	{"svg", "StopOpacity", "stop-opacity", "attr", "", svg.StopOpacity},
	{"svg", "Stroke", "stroke", "attr", "", svg.Stroke},
	{"svg", "StrokeDashArray", "stroke-dasharray", "attr", "", svg.StrokeDashArray},
	{"svg", "StrokeDashOffset", "stroke-dashoffset", "attr", "", svg.StrokeDashOffset},
	{"svg", "StrokeLineCap", "stroke-linecap", "attr", "", svg.StrokeLineCap},
	{"svg", "StrokeLineJoin", "stroke-linejoin", "attr", "", svg.StrokeLineJoin},
	{"svg", "StrokeMiterLimit", "stroke-miterlimit", "attr", "", svg.StrokeMiterLimit},
	{"svg", "StrokeOpacity", "stroke-opacity", "attr", "", svg.StrokeOpacity},
	{"svg", "StrokeWidth", "stroke-width", "attr", "", svg.StrokeWidth},
	{"svg", "Style", "style", "delim", "; ", svg.Style},
	{"svg", "SystemLanguage", "systemLanguage", "attr", "", svg.SystemLanguage},
	{"svg", "TabIndex", "tabindex", "attr", "", svg.TabIndex},
	{"svg", "TextAnchor", "text-anchor", "attr", "", svg.TextAnchor},
	{"svg", "TextDecoration", "text-decoration", "attr", "", svg.TextDecoration},
	{"svg", "TextRendering", "text-rendering", "attr", "", svg.TextRendering},
	{"svg", "TextLength", "textLength", "attr", "", svg.TextLength},
	{"svg", "To", "to", "attr", "", svg.To},
	{"svg", "Type", "type", "attr", "", svg.Type},
	{"svg", "UnicodeBidi", "unicode-bidi", "attr", "", svg.UnicodeBidi},
	{"svg", "Values", "values", "attr", "", svg.Values},
	{"svg", "Visibility", "visibility", "attr", "", svg.Visibility},
	{"svg", "Width", "width", "attr", "", svg.Width},
	{"svg", "WordSpacing", "word-spacing", "attr", "", svg.WordSpacing},
	{"svg", "WritingMode", "writing-mode", "attr", "", svg.WritingMode},
	{"svg", "X", "x", "attr", "", svg.X},
	{"svg", "X1", "x1", "attr", "", svg.X1},
	{"svg", "X2", "x2", "attr", "", svg.X2},
	{"svg", "XlinkActuate", "xlink:actuate", "attr", "", svg.XlinkActuate},
	{"svg", "XlinkArcrole", "xlink:arcrole", "attr", "", svg.XlinkArcrole},
	{"svg", "XlinkHref", "xlink:href", "attr", "", svg.XlinkHref},
	{"svg", "XlinkRole", "xlink:role", "attr", "", svg.XlinkRole},
	{"svg", "XlinkShow", "xlink:show", "attr", "", svg.XlinkShow},
	{"svg", "XlinkTitle", "xlink:title", "attr", "", svg.XlinkTitle},
	{"svg", "XmlBase", "xml:base", "attr", "", svg.XmlBase},
	{"svg", "XmlLang", "xml:lang", "attr", "", svg.XmlLang},
	{"svg", "XmlSpace", "xml:space", "attr", "", svg.XmlSpace},
	{"svg", "Y", "y", "attr", "", svg.Y},
	{"svg", "Y1", "y1", "attr", "", svg.Y1},
	{"svg", "Y2", "y2", "attr", "", svg.Y2},
	{"htmx", "Get", "hx-get", "attr", "", htmx.Get},
	{"htmx", "Post", "hx-post", "attr", "", htmx.Post},
	{"htmx", "Put", "hx-put", "attr", "", htmx.Put},
	{"htmx", "Delete", "hx-delete", "attr", "", htmx.Delete},
	{"htmx", "Patch", "hx-patch", "attr", "", htmx.Patch},
	{"htmx", "Target", "hx-target", "attr", "", htmx.Target},
	{"htmx", "Swap", "hx-swap", "attr", "", htmx.Swap},
	{"htmx", "SwapOob", "hx-swap-oob", "attr", "", htmx.SwapOob},
	{"htmx", "Trigger", "hx-trigger", "delim", " ", htmx.Trigger},
	{"htmx", "Include", "hx-include", "attr", "", htmx.Include},
	{"htmx", "Select", "hx-select", "attr", "", htmx.Select},
	{"htmx", "Params", "hx-params", "delim", " ", htmx.Params},
	{"htmx", "PushURL", "hx-push-url", "attr", "", htmx.PushURL},
	{"htmx", "ReplaceURL", "hx-replace-url", "attr", "", htmx.ReplaceURL},
	{"htmx", "OnBeforeRequest", "hx-on:before-request", "attr", "", htmx.OnBeforeRequest},
	{"htmx", "OnSend", "hx-on:send", "attr", "", htmx.OnSend},
	{"htmx", "OnAfterRequest", "hx-on:after-request", "attr", "", htmx.OnAfterRequest},
	{"htmx", "OnBeforeSwap", "hx-on:before-swap", "attr", "", htmx.OnBeforeSwap},
	{"htmx", "OnAfterSwap", "hx-on:after-swap", "attr", "", htmx.OnAfterSwap},
	{"htmx", "OnResponseError", "hx-on:response-error", "attr", "", htmx.OnResponseError},
	{"htmx", "OnSendError", "hx-on:send-error", "attr", "", htmx.OnSendError},
	{"htmx", "Confirm", "hx-confirm", "attr", "", htmx.Confirm},
	{"htmx", "Disable", "hx-disable", "attr", "", htmx.Disable},
	{"htmx", "DisabledElt", "hx-disabled-elt", "attr", "", htmx.DisabledElt},
	{"htmx", "Boost", "hx-boost", "attr", "", htmx.Boost},
	{"htmx", "Ext", "hx-ext", "attr", "", htmx.Ext},
	{"htmx", "Encoding", "hx-encoding", "attr", "", htmx.Encoding},
	{"htmx", "HistoryElt", "hx-history-elt", "attr", "", htmx.HistoryElt},
	{"htmx", "Indicator", "hx-indicator", "attr", "", htmx.Indicator},
	{"htmx", "Request", "hx-request", "attr", "", htmx.Request},
	{"htmx", "Vals", "hx-vals", "attr", "", htmx.Vals},
	{"htmx", "Vars", "hx-vars", "delim", ", ", htmx.Vars},
	{"htmx", "Inherit", "hx-inherit", "delim", " ", htmx.Inherit},
	{"htmx", "Disinherit", "hx-disinherit", "delim", " ", htmx.Disinherit},
	{"htmx", "Sync", "hx-sync", "attr", "", htmx.Sync},
	{"htmx", "Preserve", "hx-preserve", "attr", "", htmx.Preserve},
	{"htmx", "Prompt", "hx-prompt", "attr", "", htmx.Prompt},
	{"htmx", "Validate", "hx-validate", "attr", "", htmx.Validate},
	{"css", "Display", "display", "style", "", css.Display},
	{"css", "Position", "position", "style", "", css.Position},
	{"css", "Top", "top", "style", "", css.Top},
	{"css", "Right", "right", "style", "", css.Right},
	{"css", "Bottom", "bottom", "style", "", css.Bottom},
	{"css", "Left", "left", "style", "", css.Left},
	{"css", "ZIndex", "z-index", "style", "", css.ZIndex},
	{"css", "Float", "float", "style", "", css.Float},
	{"css", "Clear", "clear", "style", "", css.Clear},
	{"css", "Flex", "flex", "style", "", css.Flex},
	{"css", "FlexGrow", "flex-grow", "style", "", css.FlexGrow},
	{"css", "FlexShrink", "flex-shrink", "style", "", css.FlexShrink},
	{"css", "FlexBasis", "flex-basis", "style", "", css.FlexBasis},
	{"css", "JustifyContent", "justify-content", "style", "", css.JustifyContent},
	{"css", "AlignItems", "align-items", "style", "", css.AlignItems},
	{"css", "AlignContent", "align-content", "style", "", css.AlignContent},
	{"css", "AlignSelf", "align-self", "style", "", css.AlignSelf},
	{"css", "Gap", "gap", "style", "", css.Gap},
	{"css", "RowGap", "row-gap", "style", "", css.RowGap},
	{"css", "ColumnGap", "column-gap", "style", "", css.ColumnGap},
	{"css", "Width", "width", "style", "", css.Width},
	{"css", "Height", "height", "style", "", css.Height},
	{"css", "MinWidth", "min-width", "style", "", css.MinWidth},
	{"css", "MaxWidth", "max-width", "style", "", css.MaxWidth},
	{"css", "MinHeight", "min-height", "style", "", css.MinHeight},
	{"css", "MaxHeight", "max-height", "style", "", css.MaxHeight},
	{"css", "Margin", "margin", "style", "", css.Margin},
	{"css", "MarginTop", "margin-top", "style", "", css.MarginTop},
	{"css", "MarginRight", "margin-right", "style", "", css.MarginRight},
	{"css", "MarginBottom", "margin-bottom", "style", "", css.MarginBottom},
	{"css", "MarginLeft", "margin-left", "style", "", css.MarginLeft},
	{"css", "Padding", "padding", "style", "", css.Padding},
	{"css", "PaddingTop", "padding-top", "style", "", css.PaddingTop},
	{"css", "PaddingRight", "padding-right", "style", "", css.PaddingRight},
	{"css", "PaddingBottom", "padding-bottom", "style", "", css.PaddingBottom},
	{"css", "PaddingLeft", "padding-left", "style", "", css.PaddingLeft},
	{"css", "Border", "border", "style", "", css.Border},
	{"css", "BorderWidth", "border-width", "style", "", css.BorderWidth},
	{"css", "BorderColor", "border-color", "style", "", css.BorderColor},
	{"css", "BorderStyle", "border-style", "style", "", css.BorderStyle},
	{"css", "BorderRadius", "border-radius", "style", "", css.BorderRadius},
	{"css", "BorderTop", "border-top", "style", "", css.BorderTop},
	{"css", "BorderBottom", "border-bottom", "style", "", css.BorderBottom},
	{"css", "BorderLeft", "border-left", "style", "", css.BorderLeft},
	{"css", "BorderRight", "border-right", "style", "", css.BorderRight},
	{"css", "Background", "background", "style", "", css.Background},
	{"css", "BackgroundColor", "background-color", "style", "", css.BackgroundColor},
	{"css", "BackgroundImage", "background-image", "style", "", css.BackgroundImage},
	{"css", "BackgroundSize", "background-size", "style", "", css.BackgroundSize},
	{"css", "BackgroundPosition", "background-position", "style", "", css.BackgroundPosition},
	{"css", "BackgroundRepeat", "background-repeat", "style", "", css.BackgroundRepeat},
	{"css", "Color", "color", "style", "", css.Color},
	{"css", "FontSize", "font-size", "style", "", css.FontSize},
	{"css", "FontWeight", "font-weight", "style", "", css.FontWeight},
	{"css", "FontFamily", "font-family", "style", "", css.FontFamily},
	{"css", "LineHeight", "line-height", "style", "", css.LineHeight},
	{"css", "LetterSpacing", "letter-spacing", "style", "", css.LetterSpacing},
	{"css", "TextAlign", "text-align", "style", "", css.TextAlign},
	{"css", "TextTransform", "text-transform", "style", "", css.TextTransform},
	{"css", "TextDecoration", "text-decoration", "style", "", css.TextDecoration},
	{"css", "WhiteSpace", "white-space", "style", "", css.WhiteSpace},
	{"css", "WordBreak", "word-break", "style", "", css.WordBreak},
	{"css", "Opacity", "opacity", "style", "", css.Opacity},
	{"css", "BoxShadow", "box-shadow", "style", "", css.BoxShadow},
	{"css", "Visibility", "visibility", "style", "", css.Visibility},
	{"css", "Overflow", "overflow", "style", "", css.Overflow},
	{"css", "OverflowX", "overflow-x", "style", "", css.OverflowX},
	{"css", "OverflowY", "overflow-y", "style", "", css.OverflowY},
	{"css", "Cursor", "cursor", "style", "", css.Cursor},
	{"css", "Transition", "transition", "style", "", css.Transition},
	{"css", "TransitionDuration", "transition-duration", "style", "", css.TransitionDuration},
	{"css", "TransitionTimingFunction", "transition-timing-function", "style", "", css.TransitionTimingFunction},
	{"css", "Transform", "transform", "style", "", css.Transform},
	{"css", "Animation", "animation", "style", "", css.Animation},
	{"css", "UserSelect", "user-select", "style", "", css.UserSelect},
	{"css", "PointerEvents", "pointer-events", "style", "", css.PointerEvents},
	{"css", "Isolation", "isolation", "style", "", css.Isolation},
	{"css", "ObjectFit", "object-fit", "style", "", css.ObjectFit},
	{"css", "ObjectPosition", "object-position", "style", "", css.ObjectPosition},
	{"css", "BoxSizing", "box-sizing", "style", "", css.BoxSizing},
	{"css", "AspectRatio", "aspect-ratio", "style", "", css.AspectRatio},
	{"css", "Contain", "contain", "style", "", css.Contain},
	{"css", "ContentVisibility", "content-visibility", "style", "", css.ContentVisibility},
	{"css", "Resize", "resize", "style", "", css.Resize},
	{"css", "GridTemplateColumns", "grid-template-columns", "style", "", css.GridTemplateColumns},
	{"css", "GridTemplateRows", "grid-template-rows", "style", "", css.GridTemplateRows},
	{"css", "GridColumn", "grid-column", "style", "", css.GridColumn},
	{"css", "GridRow", "grid-row", "style", "", css.GridRow},
	{"css", "GridArea", "grid-area", "style", "", css.GridArea},
	{"css", "GridAutoFlow", "grid-auto-flow", "style", "", css.GridAutoFlow},
	{"css", "PlaceItems", "place-items", "style", "", css.PlaceItems},
	{"css", "PlaceContent", "place-content", "style", "", css.PlaceContent},
	{"css", "PlaceSelf", "place-self", "style", "", css.PlaceSelf},
	{"css", "FontStyle", "font-style", "style", "", css.FontStyle},
	{"css", "FontVariant", "font-variant", "style", "", css.FontVariant},
	{"css", "FontStretch", "font-stretch", "style", "", css.FontStretch},
	{"css", "Direction", "direction", "style", "", css.Direction},
	{"css", "TabSize", "tab-size", "style", "", css.TabSize},
	{"css", "ListStyle", "list-style", "style", "", css.ListStyle},
	{"css", "ListStyleType", "list-style-type", "style", "", css.ListStyleType},
	{"css", "ListStylePosition", "list-style-position", "style", "", css.ListStylePosition},
	{"css", "ListStyleImage", "list-style-image", "style", "", css.ListStyleImage},
	{"css", "BorderCollapse", "border-collapse", "style", "", css.BorderCollapse},
	{"css", "BorderSpacing", "border-spacing", "style", "", css.BorderSpacing},
	{"css", "TableLayout", "table-layout", "style", "", css.TableLayout},
	{"css", "EmptyCells", "empty-cells", "style", "", css.EmptyCells},
	{"css", "Filter", "filter", "style", "", css.Filter},
	{"css", "BackdropFilter", "backdrop-filter", "style", "", css.BackdropFilter},
	{"css", "MixBlendMode", "mix-blend-mode", "style", "", css.MixBlendMode},
	{"css", "BoxDecorationBreak", "box-decoration-break", "style", "", css.BoxDecorationBreak},
	{"css", "ScrollBehavior", "scroll-behavior", "style", "", css.ScrollBehavior},
	{"css", "ScrollSnapType", "scroll-snap-type", "style", "", css.ScrollSnapType},
	{"css", "ScrollSnapAlign", "scroll-snap-align", "style", "", css.ScrollSnapAlign},
	{"css", "ScrollMargin", "scroll-margin", "style", "", css.ScrollMargin},
	{"css", "ScrollPadding", "scroll-padding", "style", "", css.ScrollPadding},
	{"css", "AnimationName", "animation-name", "style", "", css.AnimationName},
	{"css", "AnimationDuration", "animation-duration", "style", "", css.AnimationDuration},
	{"css", "AnimationTimingFunction", "animation-timing-function", "style", "", css.AnimationTimingFunction},
	{"css", "AnimationDelay", "animation-delay", "style", "", css.AnimationDelay},
	{"css", "AnimationIterationCount", "animation-iteration-count", "style", "", css.AnimationIterationCount},
	{"css", "AnimationDirection", "animation-direction", "style", "", css.AnimationDirection},
	{"css", "AnimationFillMode", "animation-fill-mode", "style", "", css.AnimationFillMode},
	{"css", "AnimationPlayState", "animation-play-state", "style", "", css.AnimationPlayState},
	{"css", "TransitionProperty", "transition-property", "style", "", css.TransitionProperty},
	{"css", "TransitionDelay", "transition-delay", "style", "", css.TransitionDelay},
	{"css", "TouchAction", "touch-action", "style", "", css.TouchAction},
	{"css", "WillChange", "will-change", "style", "", css.WillChange},
	{"css", "CaretColor", "caret-color", "style", "", css.CaretColor},
	{"css", "ScrollSnapStop", "scroll-snap-stop", "style", "", css.ScrollSnapStop},
	{"css", "Speak", "speak", "style", "", css.Speak},
	{"css", "PageBreakBefore", "page-break-before", "style", "", css.PageBreakBefore},
	{"css", "PageBreakAfter", "page-break-after", "style", "", css.PageBreakAfter},
	{"css", "PageBreakInside", "page-break-inside", "style", "", css.PageBreakInside},
}

type constant struct {
	Name, Got, Want string
}

var constants = []constant{
	{"css.Important", css.Important, " !important"},
	{"css.DisplayBlock", css.DisplayBlock, "block"},
	{"css.DisplayInline", css.DisplayInline, "inline"},
	{"css.DisplayInlineBlock", css.DisplayInlineBlock, "inline-block"},
	{"css.DisplayFlex", css.DisplayFlex, "flex"},
	{"css.DisplayGrid", css.DisplayGrid, "grid"},
	{"css.DisplayNone", css.DisplayNone, "none"},
	{"css.PositionStatic", css.PositionStatic, "static"},
	{"css.PositionRelative", css.PositionRelative, "relative"},
	{"css.PositionAbsolute", css.PositionAbsolute, "absolute"},
	{"css.PositionFixed", css.PositionFixed, "fixed"},
	{"css.PositionSticky", css.PositionSticky, "sticky"},
	{"css.TextLeft", css.TextLeft, "left"},
	{"css.TextCenter", css.TextCenter, "center"},
	{"css.TextRight", css.TextRight, "right"},
	{"css.TextJustify", css.TextJustify, "justify"},
	{"css.BorderNone", css.BorderNone, "none"},
	{"css.BorderSolid", css.BorderSolid, "solid"},
	{"css.BorderDashed", css.BorderDashed, "dashed"},
	{"css.BorderDotted", css.BorderDotted, "dotted"},
	{"css.BorderDouble", css.BorderDouble, "double"},
	{"css.BorderGroove", css.BorderGroove, "groove"},
	{"css.BorderRidge", css.BorderRidge, "ridge"},
	{"css.BorderInset", css.BorderInset, "inset"},
	{"css.BorderOutset", css.BorderOutset, "outset"},
	{"css.FontWeightNormal", css.FontWeightNormal, "normal"},
	{"css.FontWeightBold", css.FontWeightBold, "bold"},
	{"css.FontWeightLight", css.FontWeightLight, "lighter"},
	{"css.FontWeightBolder", css.FontWeightBolder, "bolder"},
	{"css.JustifyStart", css.JustifyStart, "flex-start"},
	{"css.JustifyCenter", css.JustifyCenter, "center"},
	{"css.JustifyEnd", css.JustifyEnd, "flex-end"},
	{"css.JustifyBetween", css.JustifyBetween, "space-between"},
	{"css.JustifyAround", css.JustifyAround, "space-around"},
	{"css.AlignStart", css.AlignStart, "start"},
	{"css.AlignCenter", css.AlignCenter, "center"},
	{"css.AlignEnd", css.AlignEnd, "end"},
	{"css.AlignStretch", css.AlignStretch, "stretch"},
	{"css.AlignBaseline", css.AlignBaseline, "baseline"},
	{"css.OverflowVisible", css.OverflowVisible, "visible"},
	{"css.OverflowHidden", css.OverflowHidden, "hidden"},
	{"css.OverflowScroll", css.OverflowScroll, "scroll"},
	{"css.OverflowAuto", css.OverflowAuto, "auto"},
	{"css.VisibilityVisible", css.VisibilityVisible, "visible"},
	{"css.VisibilityHidden", css.VisibilityHidden, "hidden"},
	{"css.VisibilityCollapse", css.VisibilityCollapse, "collapse"},
	{"css.TextTransformNone", css.TextTransformNone, "none"},
	{"css.TextTransformCapitalize", css.TextTransformCapitalize, "capitalize"},
	{"css.TextTransformUppercase", css.TextTransformUppercase, "uppercase"},
	{"css.TextTransformLowercase", css.TextTransformLowercase, "lowercase"},
	{"css.WhiteSpaceNormal", css.WhiteSpaceNormal, "normal"},
	{"css.WhiteSpaceNowrap", css.WhiteSpaceNowrap, "nowrap"},
	{"css.WhiteSpacePre", css.WhiteSpacePre, "pre"},
	{"css.WhiteSpacePreWrap", css.WhiteSpacePreWrap, "pre-wrap"},
	{"css.WhiteSpacePreLine", css.WhiteSpacePreLine, "pre-line"},
	{"htmx.SwapOuterHTML", htmx.SwapOuterHTML, "outerHTML"},
	{"htmx.SwapInnerHTML", htmx.SwapInnerHTML, "innerHTML"},
	{"htmx.SwapTextContent", htmx.SwapTextContent, "textContent"},
	{"htmx.SwapNone", htmx.SwapNone, "none"},
	{"htmx.SwapDelete", htmx.SwapDelete, "delete"},
	{"htmx.SwapBeforeBegin", htmx.SwapBeforeBegin, "beforebegin"},
	{"htmx.SwapAfterBegin", htmx.SwapAfterBegin, "afterbegin"},
	{"htmx.SwapBeforeEnd", htmx.SwapBeforeEnd, "beforeend"},
	{"htmx.SwapAfterEnd", htmx.SwapAfterEnd, "afterend"},
	{"htmx.TriggerClick", htmx.TriggerClick, "click"},
	{"htmx.TriggerChange", htmx.TriggerChange, "change"},
	{"htmx.TriggerSubmit", htmx.TriggerSubmit, "submit"},
	{"htmx.TriggerLoad", htmx.TriggerLoad, "load"},
	{"htmx.TriggerEvery", htmx.TriggerEvery, "every"},
	{"htmx.TriggerRevealed", htmx.TriggerRevealed, "revealed"},
	{"htmx.TriggerIntersect", htmx.TriggerIntersect, "intersect"},
	{"htmx.EventBeforeRequest", htmx.EventBeforeRequest, "before-request"},
	{"htmx.EventSend", htmx.EventSend, "send"},
	{"htmx.EventAfterRequest", htmx.EventAfterRequest, "after-request"},
	{"htmx.EventBeforeSwap", htmx.EventBeforeSwap, "before-swap"},
	{"htmx.EventAfterSwap", htmx.EventAfterSwap, "after-swap"},
	{"htmx.EventResponseError", htmx.EventResponseError, "response-error"},
	{"htmx.EventSendError", htmx.EventSendError, "send-error"},
	{"htmx.SyncAbort", htmx.SyncAbort, "abort"},
	{"htmx.SyncDrop", htmx.SyncDrop, "drop"},
	{"htmx.SyncReplace", htmx.SyncReplace, "replace"},
	{"htmx.SyncQueue", htmx.SyncQueue, "queue"},
	{"htmx.SyncQueueFirst", htmx.SyncQueueFirst, "queue first"},
	{"htmx.SyncQueueLast", htmx.SyncQueueLast, "queue last"},
	{"htmx.SyncQueueAll", htmx.SyncQueueAll, "queue all"},
	{"htmx.AttrGet", htmx.AttrGet, "hx-get"},
	{"htmx.AttrPost", htmx.AttrPost, "hx-post"},
	{"htmx.AttrPut", htmx.AttrPut, "hx-put"},
	{"htmx.AttrDelete", htmx.AttrDelete, "hx-delete"},
	{"htmx.AttrPatch", htmx.AttrPatch, "hx-patch"},
	{"htmx.AttrTarget", htmx.AttrTarget, "hx-target"},
	{"htmx.AttrSwap", htmx.AttrSwap, "hx-swap"},
	{"htmx.AttrSwapOob", htmx.AttrSwapOob, "hx-swap-oob"},
	{"htmx.AttrTrigger", htmx.AttrTrigger, "hx-trigger"},
	{"htmx.AttrInclude", htmx.AttrInclude, "hx-include"},
	{"htmx.AttrSelect", htmx.AttrSelect, "hx-select"},
	{"htmx.AttrParams", htmx.AttrParams, "hx-params"},
	{"htmx.AttrPushURL", htmx.AttrPushURL, "hx-push-url"},
	{"htmx.AttrReplaceURL", htmx.AttrReplaceURL, "hx-replace-url"},
	{"htmx.AttrConfirm", htmx.AttrConfirm, "hx-confirm"},
	{"htmx.AttrDisable", htmx.AttrDisable, "hx-disable"},
	{"htmx.AttrDisabledElt", htmx.AttrDisabledElt, "hx-disabled-elt"},
	{"htmx.AttrBoost", htmx.AttrBoost, "hx-boost"},
	{"htmx.AttrExt", htmx.AttrExt, "hx-ext"},
	{"htmx.AttrEncoding", htmx.AttrEncoding, "hx-encoding"},
	{"htmx.AttrHistoryElt", htmx.AttrHistoryElt, "hx-history-elt"},
	{"htmx.AttrIndicator", htmx.AttrIndicator, "hx-indicator"},
	{"htmx.AttrRequest", htmx.AttrRequest, "hx-request"},
	{"htmx.AttrOn", htmx.AttrOn, "hx-on"},
	{"htmx.AttrVals", htmx.AttrVals, "hx-vals"},
	{"htmx.AttrVars", htmx.AttrVars, "hx-vars"},
	{"htmx.AttrHeaders", htmx.AttrHeaders, "hx-headers"},
	{"htmx.AttrInherit", htmx.AttrInherit, "hx-inherit"},
	{"htmx.AttrDisinherit", htmx.AttrDisinherit, "hx-disinherit"},
	{"htmx.AttrPreserve", htmx.AttrPreserve, "hx-preserve"},
	{"htmx.AttrPrompt", htmx.AttrPrompt, "hx-prompt"},
	{"htmx.AttrSync", htmx.AttrSync, "hx-sync"},
	{"htmx.AttrValidate", htmx.AttrValidate, "hx-validate"},
}
