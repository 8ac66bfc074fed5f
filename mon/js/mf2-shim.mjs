// Stand-in for the messageformat package: the data model of the source arrives with the call.

export const Model = {}
export const state = { model: null }

export class MessageSyntaxError extends Error {
  constructor(message, start, end) {
    super(message)
    this.start = start
    this.end = end
  }
}

export function parseMessage() {
  if (!state.model) throw new MessageSyntaxError('parse-error', 0, 1)
  return state.model
}
