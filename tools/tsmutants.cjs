// lists mutants of TypeScript files as JSON lines {file,line,start,end,new,kind}
// usage: NODE_PATH=/opt/veriftools/node/node_modules node tools/tsmutants.cjs FILE...
const ts = require('typescript'), fs = require('fs')
for (const file of process.argv.slice(2)) {
  const src = fs.readFileSync(file, 'utf8')
  const sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true)
  const put = (n, s, kind) => {
    const start = n.getStart(sf), end = n.getEnd()
    console.log(JSON.stringify({ file, line: sf.getLineAndCharacterOfPosition(start).line + 1, start, end, old: src.slice(start, end).slice(0, 80), new: s, kind }))
  }
  const K = ts.SyntaxKind
  const visit = (n) => {
    if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return
    if (ts.isIfStatement(n) || ts.isWhileStatement(n)) {
      put(n.expression, '!(' + n.expression.getText(sf) + ')', 'negate')
      if (ts.isIfStatement(n)) { put(n.expression, 'false', 'false'); put(n.expression, 'true', 'true') }
      if (ts.isIfStatement(n) && n.elseStatement) put(n.elseStatement, '{}', 'del else')
    }
    if (ts.isConditionalExpression(n)) { put(n.condition, 'true', 'cond true'); put(n.condition, 'false', 'cond false') }
    if (ts.isExpressionStatement(n)) put(n, ';', 'del stmt')
    if (ts.isThrowStatement(n) || ts.isBreakStatement(n) || ts.isContinueStatement(n)) put(n, ';', 'del ' + K[n.kind])
    if (ts.isReturnStatement(n)) { if (!n.expression) put(n, ';', 'del return'); else if (n.expression.kind !== K.NullKeyword) put(n.expression, 'undefined as any', 'return undefined') }
    if (ts.isBinaryExpression(n)) {
      const m = { '&&': '||', '||': '&&', '??': '&&', '===': '!==', '!==': '===', '<': '<=', '>': '>=', '<=': '<', '>=': '>', '+': '-', '-': '+' }[n.operatorToken.getText(sf)]
      if (m) put(n.operatorToken, m, 'op')
      if (['&&', '||', '??'].includes(n.operatorToken.getText(sf))) { put(n, n.left.getText(sf), 'left'); put(n, n.right.getText(sf), 'right') }
    }
    if (n.kind === K.TrueKeyword && !ts.isLiteralTypeNode(n.parent)) put(n, 'false', 'const')
    if (n.kind === K.FalseKeyword && !ts.isLiteralTypeNode(n.parent)) put(n, 'true', 'const')
    if (ts.isNumericLiteral(n) && !ts.isLiteralTypeNode(n.parent)) put(n, String(Number(n.text) + 1), 'num')
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) put(n, n.operand.getText(sf), 'del !')
    if (ts.isAwaitExpression(n)) put(n, n.expression.getText(sf), 'del await')
    if (ts.isCallExpression(n) && n.arguments.length) {
      const a = n.arguments[n.arguments.length - 1]
      if (!ts.isFunctionLike(a)) put(a, 'undefined as any', 'arg undefined')
      if (n.arguments.length > 1 && !ts.isFunctionLike(n.arguments[0])) put(n.arguments[0], 'undefined as any', 'arg0 undefined')
    }
    if (ts.isCaseClause(n) && n.statements.length) { const l = n.statements[n.statements.length - 1]; if (ts.isBreakStatement(l) === false) put(n.expression, n.expression.getText(sf) + ' + "x" as any', 'case') }
    if (ts.isTryStatement(n) && n.finallyBlock) put(n.finallyBlock, '{}', 'del finally')
    if (ts.isCatchClause(n) && n.block.statements.length) put(n.block, '{}', 'del catch')
    ts.forEachChild(n, visit)
  }
  visit(sf)
}
