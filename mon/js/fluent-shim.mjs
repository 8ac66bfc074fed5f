// Stand-in for @fluent/syntax: entries arrive parsed by the Python fluent.syntax package;
// inline expressions are parsed here, following the Fluent syntax specification.

class BaseNode {
  constructor(data) {
    Object.assign(this, data)
    this.type = this.constructor.name.replace(/_$/, '')
  }
}
export class Identifier extends BaseNode {}
export class Pattern extends BaseNode {}
export class TextElement extends BaseNode {}
export class Placeable extends BaseNode {}
export class SelectExpression extends BaseNode {}
export class Variant extends BaseNode {}
export class CallArguments extends BaseNode {}
export class NamedArgument extends BaseNode {}
export class Attribute extends BaseNode {}
export class Message extends BaseNode {}
export class Term extends BaseNode {}
export class Junk extends BaseNode {}
export class Annotation extends BaseNode {}
export class Span extends BaseNode {}
export class BaseLiteral extends BaseNode {}
export class NumberLiteral extends BaseLiteral {
  parse() {
    return { value: parseFloat(this.value) }
  }
}
export class StringLiteral extends BaseLiteral {
  parse() {
    const value = this.value.replace(/\\\\|\\"|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{6})/g, (m, u4, u6) => {
      if (m === '\\\\') return '\\'
      if (m === '\\"') return '"'
      const n = parseInt(u4 || u6, 16)
      return n <= 0xd7ff || n >= 0xe000 ? String.fromCodePoint(n) : '�'
    })
    return { value }
  }
}
export class VariableReference extends BaseNode {}
export class MessageReference extends BaseNode {}
export class TermReference extends BaseNode {}
export class FunctionReference extends BaseNode {}
export class Comment extends BaseNode {}

const classes = { Identifier, Pattern, TextElement, Placeable, SelectExpression, Variant, CallArguments, NamedArgument, Attribute, Message, Term, Junk, Annotation, Span, NumberLiteral, StringLiteral, VariableReference, MessageReference, TermReference, FunctionReference, Comment }

function revive(x) {
  if (Array.isArray(x)) return x.map(revive)
  if (x && typeof x === 'object') {
    const data = Object.fromEntries(Object.entries(x).map(([k, v]) => [k, revive(v)]))
    return new classes[x.type](data)
  }
  return x
}

export class ParseError extends Error {
  constructor(code, ...args) {
    super(`Fluent error ${code} ${args.join(' ')}`)
    this.code = code
    this.args = args
  }
}

export class FluentParserStream {
  constructor(string) {
    this.string = string
    this.index = 0
    this.peekOffset = 0
  }
  charAt(i) {
    return this.string[i] === '\r' && this.string[i + 1] === '\n' ? '\n' : this.string[i]
  }
  currentChar() {
    return this.charAt(this.index)
  }
  currentPeek() {
    return this.charAt(this.index + this.peekOffset)
  }
  next() {
    this.peekOffset = 0
    if (this.string[this.index] === '\r' && this.string[this.index + 1] === '\n') this.index++
    this.index++
    return this.string[this.index]
  }
  peek() {
    this.peekOffset++
    return this.string[this.index + this.peekOffset]
  }
  skipBlank() {
    while (this.currentChar() === ' ' || this.currentChar() === '\n') this.next()
  }
  expectChar(ch) {
    if (this.currentChar() !== ch) throw new ParseError('E0003', ch)
    this.next()
  }
}

export const state = { entry: null }

export class FluentParser {
  parseEntry() {
    return revive(state.entry)
  }
  getInlineExpression(ps) {
    const take = (re, code) => {
      const m = ps.string.substring(ps.index).match(re)
      if (!m) throw new ParseError(code)
      ps.index += m[0].length
      return m
    }
    const ident = () => new Identifier({ name: take(/^[a-zA-Z][-a-zA-Z0-9_]*/, 'E0004')[0] })
    const ch = ps.currentChar()
    if (ch === '{') throw Error('fluent shim: nested placeable')
    if (/[0-9]/.test(ch ?? '') || (ch === '-' && /[0-9]/.test(ps.string[ps.index + 1] ?? '')))
      return new NumberLiteral({ value: take(/^-?[0-9]+(\.[0-9]+)?/, 'E0004')[0] })
    if (ch === '"') {
      const m = take(/^"((?:[^"\\\n]|\\["\\]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{6})*)"/, 'E0020')
      return new StringLiteral({ value: m[1] })
    }
    if (ch === '$') {
      ps.next()
      return new VariableReference({ id: ident() })
    }
    const args = () => {
      const save = ps.index
      ps.skipBlank()
      if (ps.currentChar() !== '(') {
        ps.index = save
        return null
      }
      ps.next()
      const res = new CallArguments({ positional: [], named: [] })
      const names = new Set()
      for (;;) {
        ps.skipBlank()
        if (ps.currentChar() === ')') break
        const expr = this.getInlineExpression(ps)
        ps.skipBlank()
        if (ps.currentChar() === ':') {
          if (!(expr instanceof MessageReference) || expr.attribute) throw new ParseError('E0009')
          if (names.has(expr.id.name)) throw new ParseError('E0022')
          names.add(expr.id.name)
          ps.next()
          ps.skipBlank()
          const value = this.getInlineExpression(ps)
          if (!(value instanceof BaseLiteral)) throw new ParseError('E0014')
          res.named.push(new NamedArgument({ name: expr.id, value }))
        } else if (names.size) throw new ParseError('E0021')
        else res.positional.push(expr)
        ps.skipBlank()
        if (ps.currentChar() === ',') {
          ps.next()
          continue
        }
        break
      }
      ps.expectChar(')')
      return res
    }
    if (ch === '-') {
      ps.next()
      const id = ident()
      let attribute = null
      if (ps.currentChar() === '.') {
        ps.next()
        attribute = ident()
      }
      return new TermReference({ id, attribute, arguments: args() })
    }
    if (/[a-zA-Z]/.test(ch ?? '')) {
      const id = ident()
      const call = args()
      if (call) {
        if (!/^[A-Z][A-Z0-9_-]*$/.test(id.name)) throw new ParseError('E0008')
        return new FunctionReference({ id, arguments: call })
      }
      let attribute = null
      if (ps.currentChar() === '.') {
        ps.next()
        attribute = ident()
      }
      return new MessageReference({ id, attribute })
    }
    throw new ParseError('E0028')
  }
}
