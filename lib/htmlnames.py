"""Names of elements and attributes that occur in documents: what a template
means does not depend on them, except where the specifications say so."""

# not: void elements, and script and style, whose content is raw
ELEMENTS = """a abbr acronym address applet article aside audio b bdi bdo big blink blockquote body button canvas caption
center cite code colgroup data datalist dd del details dfn dialog dir div dl dt em fieldset figcaption figure font footer
form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins isindex kbd label legend li listing main map mark
marquee math menu menuitem meter multicol nav nobr noembed noframes noscript object ol optgroup option output p picture pre
progress q rb rp rt rtc ruby s samp search section select slot small spacer span strike strong sub summary sup svg table tbody
td template textarea tfoot th thead time title tr tt u ul var video xmp image bgsound basefont
g path circle rect text tspan defs use symbol lineargradient foreignobject clippath mask filter mi mo mn mrow
x-foo my-element o:p fb:like xsl:if a.b x_1 script2 stylesheet brx linked h7 content replace block if for def with""".split()
VOID = "area base br col embed hr img input keygen link meta param source track wbr".split()

TRANSLATABLE = "title alt placeholder value caption".split()
ATTRIBUTES = """accept accept-charset accesskey action align allow allowfullscreen archive async autocapitalize autocomplete autofocus
autoplay axis background bgcolor border cellpadding cellspacing char charset checked cite class classid clear code codebase
codetype color cols colspan compact content contenteditable controls coords crossorigin data datetime decoding default defer
dir dirname disabled download draggable enctype enterkeyhint face fetchpriority for form formaction formenctype formmethod
formnovalidate formtarget frame frameborder headers height hidden high href hreflang hspace http-equiv icon id imagesizes
imagesrcset inert inputmode integrity is ismap itemid itemprop itemref itemscope itemtype kind label lang language link list
longdesc loop low manifest marginheight max maxlength media method min minlength multiple muted name nohref nomodule nonce
noresize noshade novalidate nowrap object onabort onblur onchange onclick onerror onload onsubmit open optimum part pattern
ping playsinline popover poster preload profile prompt readonly referrerpolicy rel required rev reversed role rows rowspan
rules sandbox scheme scope scrolling selected shape size sizes slot span spellcheck src srcdoc srclang srcset standby start
step style summary tabindex target text translate truespeed type typemustmatch usemap valign valuetype version vlink vspace
width wrap aria-label aria-labelledby aria-describedby aria-hidden aria-placeholder aria-valuetext aria-roledescription
data-x data-title data-value data-i18n data-original-title xml:lang xml:space xlink:href xmlns xmlns:xlink viewbox fill d
transform stroke-width v-if v-on:click :key @click x-data ng-model hx-get on.x _ a b1 titles title2 altx sub-title captions
if strip attrs replace block condition repeat omit-tag test each function vars""".split()
