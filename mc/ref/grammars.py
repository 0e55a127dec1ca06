"""The grammars of HTTP, as given in the specifications."""

from mc.ref.abnf import Grammar

TEXT = r'''
; RFC 5234
ALPHA = %x41-5A / %x61-7A
CHAR = %x01-7F
DIGIT = %x30-39
DQUOTE = %x22
HEXDIG = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
HTAB = %x09
SP = %x20
VCHAR = %x21-7E

; RFC 3986, RFC 6874
URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
hier-part = "//" authority path-abempty / path-absolute / path-rootless / path-empty
URI-reference = URI / relative-ref
absolute-URI = scheme ":" hier-part [ "?" query ]
relative-ref = relative-part [ "?" query ] [ "#" fragment ]
relative-part = "//" authority path-abempty / path-absolute / path-noscheme / path-empty
scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
authority = [ userinfo "@" ] host [ ":" port ]
userinfo = *( unreserved / pct-encoded / sub-delims / ":" )
host = IP-literal / IPv4address / reg-name
port = *DIGIT
IP-literal = "[" ( IPv6address / IPv6addrz / IPvFuture ) "]"
ZoneID = 1*( unreserved / pct-encoded )
IPv6addrz = IPv6address "%25" ZoneID
IPvFuture = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
IPv6address = 6( h16 ":" ) ls32
   / "::" 5( h16 ":" ) ls32
   / [ h16 ] "::" 4( h16 ":" ) ls32
   / [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32
   / [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32
   / [ *3( h16 ":" ) h16 ] "::" h16 ":" ls32
   / [ *4( h16 ":" ) h16 ] "::" ls32
   / [ *5( h16 ":" ) h16 ] "::" h16
   / [ *6( h16 ":" ) h16 ] "::"
h16 = 1*4HEXDIG
ls32 = ( h16 ":" h16 ) / IPv4address
IPv4address = dec-octet "." dec-octet "." dec-octet "." dec-octet
dec-octet = DIGIT / %x31-39 DIGIT / "1" 2DIGIT / "2" %x30-34 DIGIT / "25" %x30-35
reg-name = *( unreserved / pct-encoded / sub-delims )
path-abempty = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-noscheme = segment-nz-nc *( "/" segment )
path-rootless = segment-nz *( "/" segment )
path-empty = ""
segment = *pchar
segment-nz = 1*pchar
segment-nz-nc = 1*( unreserved / pct-encoded / sub-delims / "@" )
pchar = unreserved / pct-encoded / sub-delims / ":" / "@"
query = *( pchar / "/" / "?" )
fragment = *( pchar / "/" / "?" )
pct-encoded = "%" HEXDIG HEXDIG
unreserved = ALPHA / DIGIT / "-" / "." / "_" / "~"
sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="

; RFC 7230
BWS = OWS
OWS = *( SP / HTAB )
RWS = 1*( SP / HTAB )
tchar = "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "." / "^" / "_" / "`" / "|" / "~" / DIGIT / ALPHA
token = 1*tchar
obs-text = %x80-FF
quoted-string = DQUOTE *( qdtext / quoted-pair ) DQUOTE
qdtext = HTAB / SP / %x21 / %x23-5B / %x5D-7E / obs-text
quoted-pair = "\" ( HTAB / SP / VCHAR / obs-text )
comment = "(" *( ctext / quoted-pair / comment ) ")"
ctext = HTAB / SP / %x21-27 / %x2A-5B / %x5D-7E / obs-text
method = token
field-name = token
absolute-path = 1*( "/" segment )
partial-URI = relative-part [ "?" query ]
request-target = origin-form / absolute-form / authority-form / asterisk-form
origin-form = absolute-path [ "?" query ]
absolute-form = absolute-URI
authority-form = authority
asterisk-form = "*"
uri-host = host
Host-header = uri-host [ ":" port ]
Connection = 1#connection-option
connection-option = token
Content-Length = 1*DIGIT
TE = #t-codings
; Special-cased names are not also extension names.
t-codings = "trailers" / ( te-coding [ t-ranking ] )
te-coding = "chunked" / "compress" / "deflate" / "gzip" / te-extension
te-extension = diff( token, "chunked" / "compress" / "deflate" / "gzip" / "trailers" ) *( OWS ";" OWS te-parameter )
te-parameter = diff( token, "q" ) BWS "=" BWS ( token / quoted-string )
t-ranking = OWS ";" OWS "q=" rank
rank = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
Trailer = 1#field-name
Transfer-Encoding = 1#transfer-coding
transfer-coding = "chunked" / "compress" / "deflate" / "gzip" / transfer-extension
transfer-extension = diff( token, "chunked" / "compress" / "deflate" / "gzip" ) *( OWS ";" OWS transfer-parameter )
transfer-parameter = token BWS "=" BWS ( token / quoted-string )
Upgrade = 1#protocol
protocol = protocol-name [ "/" protocol-version ]
protocol-name = token
protocol-version = token
Via = 1#( received-protocol RWS received-by [ RWS comment ] )
received-protocol = [ protocol-name "/" ] protocol-version
received-by = ( uri-host [ ":" port ] ) / pseudonym
pseudonym = token

; RFC 7231
Accept = #( accept-range [ accept-params ] )
accept-range = ( "*/*" / ( token "/" "*" ) / ( token "/" token ) ) *( OWS ";" OWS accept-parameter )
accept-parameter = diff( token, "q" ) "=" ( token / quoted-string )
accept-params = weight *accept-ext
accept-ext = OWS ";" OWS token [ "=" ( token / quoted-string ) ]
media-range = ( "*/*" / ( token "/" "*" ) / ( token "/" token ) ) *( OWS ";" OWS parameter )
Accept-Charset = 1#( ( token / "*" ) [ weight ] )
Accept-Encoding = #( codings [ weight ] )
codings = token / "identity" / "*"
Accept-Language = 1#( language-range [ weight ] )
Allow = #method
Content-Encoding = 1#token
Content-Language = 1#language-tag
Content-Location = absolute-URI / partial-URI
Content-Type = media-type
Date = HTTP-date
Expect = "100-continue"
Location = URI-reference
Max-Forwards = 1*DIGIT
Referer = absolute-URI / partial-URI
Retry-After = HTTP-date / 1*DIGIT
Server = product *( RWS ( product / comment ) )
User-Agent = product *( RWS ( product / comment ) )
product = token [ "/" token ]
Vary = "*" / 1#field-name
weight = OWS ";" OWS "q=" qvalue
qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
media-type = token "/" token *( OWS ";" OWS parameter )
parameter = token "=" ( token / quoted-string )
HTTP-date = IMF-fixdate / obs-date
IMF-fixdate = day-name "," SP date1 SP time-of-day SP GMT
day-name = %s"Mon" / %s"Tue" / %s"Wed" / %s"Thu" / %s"Fri" / %s"Sat" / %s"Sun"
date1 = 2DIGIT SP month SP 4DIGIT
month = %s"Jan" / %s"Feb" / %s"Mar" / %s"Apr" / %s"May" / %s"Jun" / %s"Jul" / %s"Aug" / %s"Sep" / %s"Oct"
   / %s"Nov" / %s"Dec"
GMT = %s"GMT"
time-of-day = 2DIGIT ":" 2DIGIT ":" 2DIGIT
obs-date = rfc850-date / asctime-date
rfc850-date = day-name-l "," SP date2 SP time-of-day SP GMT
date2 = 2DIGIT "-" month "-" 2DIGIT
day-name-l = %s"Monday" / %s"Tuesday" / %s"Wednesday" / %s"Thursday" / %s"Friday" / %s"Saturday" / %s"Sunday"
asctime-date = day-name SP date3 SP time-of-day SP 4DIGIT
date3 = month SP ( 2DIGIT / ( SP DIGIT ) )

; RFC 4647, RFC 5646
language-range = ( 1*8ALPHA *( "-" 1*8alphanum ) ) / "*"
alphanum = ALPHA / DIGIT
language-tag = langtag / privateuse / grandfathered
langtag = language [ "-" script ] [ "-" region ] *( "-" variant ) *( "-" extension ) [ "-" privateuse ]
language = 2*3ALPHA [ "-" extlang ] / 4ALPHA / 5*8ALPHA
extlang = 3ALPHA *2( "-" 3ALPHA )
script = 4ALPHA
region = 2ALPHA / 3DIGIT
variant = 5*8alphanum / ( DIGIT 3alphanum )
extension = singleton 1*( "-" ( 2*8alphanum ) )
singleton = DIGIT / %x41-57 / %x59-5A / %x61-77 / %x79-7A
privateuse = "x" 1*( "-" ( 1*8alphanum ) )
grandfathered = irregular / regular
irregular = "en-GB-oed" / "i-ami" / "i-bnn" / "i-default" / "i-enochian" / "i-hak" / "i-klingon" / "i-lux"
   / "i-mingo" / "i-navajo" / "i-pwn" / "i-tao" / "i-tay" / "i-tsu" / "sgn-BE-FR" / "sgn-BE-NL" / "sgn-CH-DE"
regular = "art-lojban" / "cel-gaulish" / "no-bok" / "no-nyn" / "zh-guoyu" / "zh-hakka" / "zh-min" / "zh-min-nan"
   / "zh-xiang"

; RFC 7232
ETag = entity-tag
entity-tag = [ weak ] opaque-tag
weak = %s"W/"
opaque-tag = DQUOTE *etagc DQUOTE
etagc = %x21 / %x23-7E / obs-text
Last-Modified = HTTP-date
If-Match = "*" / 1#entity-tag
If-None-Match = "*" / 1#entity-tag
If-Modified-Since = HTTP-date
If-Unmodified-Since = HTTP-date

; RFC 7233
Accept-Ranges = 1#range-unit / "none"
range-unit = token
Range = ( "bytes" "=" byte-range-set ) / ( diff( token, "bytes" ) "=" 1*VCHAR )
byte-range-set = 1#( byte-range-spec / suffix-byte-range-spec )
byte-range-spec = 1*DIGIT "-" [ 1*DIGIT ]
suffix-byte-range-spec = "-" 1*DIGIT
Content-Range = ( "bytes" SP ( byte-range-resp / unsatisfied-range ) ) / ( diff( token, "bytes" ) SP *CHAR )
byte-range-resp = 1*DIGIT "-" 1*DIGIT "/" ( 1*DIGIT / "*" )
unsatisfied-range = "*/" 1*DIGIT
If-Range = entity-tag / HTTP-date

; RFC 7234
Age = delta-seconds
delta-seconds = 1*DIGIT
Cache-Control = 1#cache-directive
cache-directive = token [ "=" ( token / quoted-string ) ]
field-name-list = #field-name
Expires = HTTP-date
Pragma = 1#pragma-directive
pragma-directive = "no-cache" / ( diff( token, "no-cache" ) [ "=" ( token / quoted-string ) ] )
Warning = 1#warning-value
warning-value = 3DIGIT SP warn-agent SP quoted-string [ SP DQUOTE HTTP-date DQUOTE ]
warn-agent = ( uri-host [ ":" port ] ) / pseudonym

; RFC 7235
WWW-Authenticate = 1#challenge
Proxy-Authenticate = 1#challenge
Authorization = challenge
Proxy-Authorization = challenge
challenge = token [ 1*SP ( token68 / #auth-param ) ]
token68 = 1*( ALPHA / DIGIT / "-" / "." / "_" / "~" / "+" / "/" ) *"="
auth-param = token BWS "=" BWS ( token / quoted-string )

; RFC 7239
Forwarded = 1#forwarded-element
forwarded-element = [ forwarded-pair ] *( ";" [ forwarded-pair ] )
forwarded-pair = token "=" ( token / quoted-string )
node = nodename [ ":" node-port ]
nodename = IPv4address / "[" IPv6address "]" / "unknown" / obfnode
obfnode = "_" 1*( ALPHA / DIGIT / "." / "_" / "-" )
node-port = 1*5DIGIT / obfnode

; RFC 7240, erratum 4439
Prefer = 1#preference
preference = preference-parameter *( OWS ";" [ OWS preference-parameter ] )
preference-parameter = parameter / token
Preference-Applied = 1#preference-parameter
return = "representation" / "minimal"
handling = "strict" / "lenient"

; RFC 7540
HTTP2-Settings = token68

; RFC 7838
Alt-Svc = %s"clear" / 1#alt-value
alt-value = token "=" quoted-string *( OWS ";" OWS parameter )
alt-authority = [ uri-host ] ":" port
Alt-Used = uri-host [ ":" port ]
persist = "1"

; RFC 8187
attr-char = ALPHA / DIGIT / "!" / "#" / "$" / "&" / "+" / "-" / "." / "^" / "_" / "`" / "|" / "~"
mime-charsetc = ALPHA / DIGIT / "!" / "#" / "$" / "%" / "&" / "+" / "-" / "^" / "_" / "`" / "{" / "}" / "~"
ext-value = 1*mime-charsetc "'" [ language-tag ] "'" *( pct-encoded / attr-char )

; RFC 8288
Link = #link-value
link-value = "<" URI-reference ">" *( OWS ";" OWS link-param )
link-param = token BWS [ "=" BWS ( token / quoted-string ) ]
relation-type = reg-rel-type / URI
reg-rel-type = loalpha *( loalpha / DIGIT / "." / "-" )
loalpha = %x61-7A
rel = relation-type *( 1*SP relation-type )
link-type = restricted-name "/" restricted-name
restricted-name = ( ALPHA / DIGIT ) *126( ALPHA / DIGIT / "!" / "#" / "$" / "&" / "-" / "^" / "_" / "." / "+" )

; RFC 6266 (with the implied LWS of RFC 2616 as OWS)
Content-Disposition = token *( OWS ";" OWS disposition-parm )
disposition-parm = "filename" OWS "=" OWS ( token / quoted-string )
   / "filename*" OWS "=" OWS ext-value
   / diff( token, "filename" / "filename*" ) OWS "=" OWS ( token / quoted-string )

; RFC 6797
Strict-Transport-Security = [ hsts-directive ] *( OWS ";" OWS [ hsts-directive ] )
hsts-directive = token [ OWS "=" OWS ( token / quoted-string ) ]

; RFC 5789, W3C LDP
Accept-Patch = 1#media-type
Accept-Post = #media-range

; WHATWG Fetch
origin-or-null = scheme "://" host [ ":" port ] / %s"null"
Origin = origin-or-null
Access-Control-Request-Method = method
Access-Control-Request-Headers = 1#field-name
Access-Control-Allow-Origin = origin-or-null / "*"
Access-Control-Allow-Credentials = %s"true"
Access-Control-Expose-Headers = #field-name
Access-Control-Max-Age = delta-seconds
Access-Control-Allow-Methods = #method
Access-Control-Allow-Headers = #field-name
X-Content-Type-Options = "nosniff"
Cross-Origin-Resource-Policy = %s"same-origin" / %s"same-site"

; HTTPolice
HTTPolice-Silence = #( 1*DIGIT [ RWS "resp" ] )
'''

G = Grammar(TEXT)

HEADERS = [
    'Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language', 'Accept-Patch', 'Accept-Post', 'Accept-Ranges',
    'Access-Control-Allow-Credentials', 'Access-Control-Allow-Headers', 'Access-Control-Allow-Methods',
    'Access-Control-Allow-Origin', 'Access-Control-Expose-Headers', 'Access-Control-Max-Age',
    'Access-Control-Request-Headers', 'Access-Control-Request-Method', 'Age', 'Allow', 'Alt-Svc', 'Alt-Used',
    'Authorization', 'Cache-Control', 'Connection', 'Content-Disposition', 'Content-Encoding', 'Content-Language',
    'Content-Length', 'Content-Location', 'Content-Range', 'Content-Type', 'Cross-Origin-Resource-Policy', 'Date', 'ETag',
    'Expect', 'Expires', 'Forwarded', 'HTTP2-Settings', 'HTTPolice-Silence', 'Host', 'If-Match', 'If-Modified-Since',
    'If-None-Match', 'If-Range', 'If-Unmodified-Since', 'Last-Modified', 'Link', 'Location', 'Max-Forwards', 'Origin',
    'Pragma', 'Prefer', 'Preference-Applied', 'Proxy-Authenticate', 'Proxy-Authorization', 'Range', 'Referer',
    'Retry-After', 'Server', 'Strict-Transport-Security', 'TE', 'Trailer', 'Transfer-Encoding', 'Upgrade', 'User-Agent',
    'Vary', 'Via', 'WWW-Authenticate', 'Warning', 'X-Content-Type-Options']


def header(name):
    """The automaton for the value of a header."""
    return G.rule("Host-header" if name == "Host" else name)
