// A small DOM for node: just what the JavaScript library uses, following the XML and DOM Parsing specifications.

const NAME = /^[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{10000}-\u{EFFFF}][-.0-9\xB7\u0300-\u036F\u203F-\u2040:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{10000}-\u{EFFFF}]*/u
const BADCHAR = /[\x00-\x08\x0B\x0C\x0E-\x1F\uFFFE\uFFFF]|[\uD800-\uDBFF](?![\uDC00-\uDFFF])|(?<![\uD800-\uDBFF])[\uDC00-\uDFFF]/
const PREDEF = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'" }
const XML_NS = 'http://www.w3.org/XML/1998/namespace'
const XMLNS_NS = 'http://www.w3.org/2000/xmlns/'

class Node {
  constructor(type) {
    this.nodeType = type
    this.childNodes = []
    this.parentNode = null
  }
  get parentElement() {
    return this.parentNode instanceof Element ? this.parentNode : null
  }
  get firstChild() {
    return this.childNodes[0] ?? null
  }
  get lastChild() {
    return this.childNodes.at(-1) ?? null
  }
  appendChild(node) {
    node.remove()
    node.parentNode = this
    this.childNodes.push(node)
    return node
  }
  append(...nodes) {
    for (const n of nodes) this.appendChild(typeof n === 'string' ? new Text(n) : n)
  }
  remove() {
    if (this.parentNode) {
      const sib = this.parentNode.childNodes
      sib.splice(sib.indexOf(this), 1)
      this.parentNode = null
    }
  }
  get textContent() {
    return this.childNodes.map((n) => (n.nodeType === 8 || n.nodeType === 7 ? '' : n.textContent)).join('')
  }
  *descendants() {
    for (const n of this.childNodes) {
      if (n instanceof Element) {
        yield n
        yield* n.descendants()
      }
    }
  }
  querySelector(name) {
    if (!/^[a-z]+$/.test(name)) throw Error(`dom shim: unsupported selector ${name}`)
    for (const n of this.descendants()) if (n.localName === name) return n
    return null
  }
}

class CharacterData extends Node {
  constructor(type, data) {
    super(type)
    this.data = data
  }
  get textContent() {
    return this.data
  }
  set textContent(v) {
    this.data = v
  }
  get nodeValue() {
    return this.data
  }
}
class Text extends CharacterData {
  constructor(data = '') {
    super(3, String(data))
  }
}
class CDATASection extends Text {
  constructor(data) {
    super(data)
    this.nodeType = 4
  }
}
class Comment extends CharacterData {
  constructor(data) {
    super(8, data)
  }
}
class PI extends CharacterData {
  constructor(target, data) {
    super(7, data)
    this.target = target
  }
}

class Element extends Node {
  constructor(ns, tagName) {
    super(1)
    this.namespaceURI = ns
    this.tagName = tagName
    this.attributes = []
  }
  get nodeName() {
    return this.tagName
  }
  get localName() {
    return this.tagName.replace(/^.*:/, '')
  }
  get prefix() {
    return this.tagName.includes(':') ? this.tagName.replace(/:.*$/, '') : null
  }
  get children() {
    return this.childNodes.filter((n) => n instanceof Element)
  }
  get childElementCount() {
    return this.children.length
  }
  hasAttributes() {
    return this.attributes.length > 0
  }
  hasAttribute(name) {
    return this.attributes.some((a) => a.name === name)
  }
  getAttribute(name) {
    return this.attributes.find((a) => a.name === name)?.value ?? null
  }
  getAttributeNames() {
    return this.attributes.map((a) => a.name)
  }
  setAttribute(name, value) {
    if (name.match(NAME)?.[0] !== name) throw Error(`InvalidCharacterError: ${name}`)
    const prev = this.attributes.find((a) => a.name === name)
    if (prev) prev.value = String(value)
    else this.attributes.push({ name, value: String(value) })
  }
}

class Document extends Node {
  constructor() {
    super(9)
  }
  get documentElement() {
    return this.childNodes.find((n) => n instanceof Element) ?? null
  }
  createElementNS(ns, name) {
    if (name.match(NAME)?.[0] !== name) throw Error(`InvalidCharacterError: ${name}`)
    if (name.includes(':')) {
      if (!ns || !/^[^:]+:[^:]+$/.test(name)) throw Error(`NamespaceError: ${name}`)
    }
    return new Element(ns || null, name)
  }
  createElement(name) {
    return this.createElementNS(null, name)
  }
  createTextNode(data) {
    return new Text(data)
  }
}

class XMLError extends Error {}

function parseXML(src) {
  src = src.replace(/\r\n?/g, '\n')
  const doc = new Document()
  let node = doc
  let scopes = [{ xml: XML_NS, xmlns: XMLNS_NS, '': null }]
  let pos = 0
  const fail = (msg) => {
    throw new XMLError(`${msg} at ${pos}`)
  }
  if (BADCHAR.test(src)) fail('Invalid character')
  const ref = (body) => {
    let m
    if ((m = body.match(/^#x([0-9A-Fa-f]+)$/)) || (m = body.match(/^#([0-9]+)$/))) {
      const n = parseInt(m[1], body[1] === 'x' ? 16 : 10)
      if (n > 0x10ffff || (n >= 0xd800 && n < 0xe000)) fail('Invalid character reference')
      const ch = String.fromCodePoint(n)
      if (BADCHAR.test(ch)) fail('Invalid character reference')
      return ch
    }
    if (!Object.hasOwn(PREDEF, body)) fail(`Entity '${body}' not defined`)
    return PREDEF[body]
  }
  const refs = (s) => {
    if (/&(?![^&;<]+;)/.test(s)) fail('Unterminated reference')
    return s.replace(/&([^;]+);/g, (_, b) => ref(b))
  }
  const text = (data) => {
    if (!data) return
    if (node === doc) {
      if (data.trim()) fail('Text outside root')
      return
    }
    if (node.lastChild?.nodeType === 3) node.lastChild.data += data
    else node.appendChild(new Text(data))
  }
  while (pos < src.length) {
    const lt = src.indexOf('<', pos)
    const chunk = src.substring(pos, lt < 0 ? src.length : lt)
    if (chunk.includes(']]>')) fail("']]>' in text")
    text(refs(chunk))
    if (lt < 0) {
      pos = src.length
      break
    }
    pos = lt
    const end = (str, from) => {
      const i = src.indexOf(str, from)
      if (i < 0) fail(`Missing ${str}`)
      return i
    }
    if (src.startsWith('<!--', pos)) {
      const e = end('--', pos + 4)
      if (src[e + 2] !== '>') fail("'--' in comment")
      node.appendChild(new Comment(src.substring(pos + 4, e)))
      pos = e + 3
    } else if (src.startsWith('<![CDATA[', pos)) {
      if (node === doc) fail('CDATA outside root')
      const e = end(']]>', pos + 9)
      node.appendChild(new CDATASection(src.substring(pos + 9, e)))
      pos = e + 3
    } else if (src.startsWith('<?', pos)) {
      const e = end('?>', pos)
      const body = src.substring(pos + 2, e)
      const m = body.match(/^([^\s]+)(?:\s+([^]*))?$/)
      if (!m || m[1].match(NAME)?.[0] !== m[1] || /^xml$/i.test(m[1])) fail('Invalid processing instruction')
      node.appendChild(new PI(m[1], m[2] ?? ''))
      pos = e + 2
    } else if (src.startsWith('</', pos)) {
      const m = src.substring(pos + 2).match(NAME)
      if (!m) fail('Invalid end tag')
      const e = src.substring(pos + 2 + m[0].length).match(/^\s*>/)
      if (!e || !(node instanceof Element) || node.tagName !== m[0]) fail('Mismatched end tag')
      pos += 2 + m[0].length + e[0].length
      node = node.parentNode
      scopes.pop()
    } else {
      const m = src.substring(pos + 1).match(NAME)
      if (!m) fail('Invalid start tag')
      if (node === doc && doc.documentElement) fail('Extra content')
      let p = pos + 1 + m[0].length
      const attrs = []
      for (;;) {
        const am = src.substring(p).match(/^(\s+)([^\s=<>"'\/]+)\s*=\s*("[^"<]*"|'[^'<]*')/)
        if (!am) break
        if (am[2].match(NAME)?.[0] !== am[2]) fail('Invalid attribute name')
        attrs.push({ name: am[2], value: refs(am[3].slice(1, -1).replace(/[\t\n]/g, ' ')) })
        p += am[0].length
      }
      const e = src.substring(p).match(/^\s*(\/?)>/)
      if (!e) fail('Invalid start tag')
      const scope = { ...scopes.at(-1) }
      for (const a of attrs) {
        if (a.name === 'xmlns') scope[''] = a.value || null
        else if (a.name.startsWith('xmlns:')) {
          if (!a.value) fail('Empty namespace')
          scope[a.name.slice(6)] = a.value
        }
      }
      const nsOf = (name, dflt) => {
        if (!name.includes(':')) return dflt
        const parts = name.split(':')
        if (parts.length > 2 || !parts[0] || !parts[1]) fail('Invalid qualified name')
        if (!Object.hasOwn(scope, parts[0])) fail(`Namespace prefix ${parts[0]} not defined`)
        return scope[parts[0]]
      }
      const seen = new Set()
      for (const a of attrs) {
        const key = `${nsOf(a.name, null)} ${a.name.replace(/^.*:/, '')}`
        if (seen.has(key)) fail('Duplicate attribute')
        seen.add(key)
      }
      const el = new Element(nsOf(m[0], scope['']), m[0])
      el.attributes = attrs
      node.appendChild(el)
      pos = p + e[0].length
      if (!e[1]) {
        node = el
        scopes.push(scope)
      }
    }
  }
  if (node !== doc) fail('Missing end tag')
  if (!doc.documentElement) fail('Missing root')
  return doc
}

class DOMParser {
  parseFromString(src, type) {
    if (type !== 'text/xml' && type !== 'application/xml') throw Error(`dom shim: ${type}`)
    try {
      return parseXML(src)
    } catch (error) {
      if (!(error instanceof XMLError)) throw error
      const doc = new Document()
      const el = doc.appendChild(new Element('http://www.mozilla.org/newlayout/xml/parsererror.xml', 'parsererror'))
      el.appendChild(new Text(error.message))
      return doc
    }
  }
}

const escText = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/\xA0/g, '\xA0')
const escAttr = (s) => escText(s).replace(/"/g, '&quot;').replace(/\t/g, '&#9;').replace(/\n/g, '&#10;').replace(/\r/g, '&#13;')

function serializeNode(node, scope) {
  switch (node.nodeType) {
    case 3:
      return escText(node.data)
    case 4:
      return `<![CDATA[${node.data}]]>`
    case 7:
      return `<?${node.target} ${node.data}?>`
    case 8:
      return `<!--${node.data}-->`
  }
  let tag = `<${node.tagName}`
  scope = { ...scope }
  for (const { name, value } of node.attributes) {
    if (name === 'xmlns') scope[''] = value || null
    else if (name.startsWith('xmlns:')) scope[name.slice(6)] = value
  }
  const px = node.prefix ?? ''
  if ((scope[px] ?? null) !== node.namespaceURI && px !== 'xml') {
    scope[px] = node.namespaceURI
    tag += ` xmlns${px ? ':' + px : ''}="${escAttr(node.namespaceURI ?? '')}"`
  }
  for (const { name, value } of node.attributes) tag += ` ${name}="${escAttr(value)}"`
  if (!node.childNodes.length) return tag + '/>'
  return tag + '>' + node.childNodes.map((n) => serializeNode(n, scope)).join('') + `</${node.tagName}>`
}

class XMLSerializer {
  serializeToString(node) {
    return serializeNode(node instanceof Document ? node.documentElement : node, { xml: XML_NS })
  }
}

Object.assign(globalThis, { DOMParser, XMLSerializer, Node, Element, Text, CDATASection, Comment, Document })
