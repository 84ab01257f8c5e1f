// TypeScript/JavaScript source -> CommonJS source whose every operator, branch and call goes through `$`.
import { createRequire } from 'node:module';
import fs from 'node:fs';

const require = createRequire(import.meta.url);
function loadTs() {
  for (const p of ['/opt/veriftools/node/node_modules/typescript', '/repo/node_modules/typescript']) {
    try {
      const ts = require(p);
      if (ts.transpileModule) return ts;
    } catch {}
  }
  throw new Error('no TypeScript compiler');
}
export const ts = loadTs();
const f = ts.factory;
const K = ts.SyntaxKind;

const id = (s) => f.createIdentifier(s);
const $ = (name, args) => f.createCallExpression(f.createPropertyAccessExpression(id('$'), name), undefined, args);
const str = (s) => f.createStringLiteral(s);
const thunk = (e) => f.createArrowFunction(undefined, undefined, [], undefined, f.createToken(K.EqualsGreaterThanToken), ts.isObjectLiteralExpression(e) ? f.createParenthesizedExpression(e) : e);
const assign = (l, r) => f.createBinaryExpression(l, K.EqualsToken, r);
const exprStmt = (e) => f.createExpressionStatement(e);
const paren = (e) => f.createParenthesizedExpression(e);

function containsAwait(n) {
  let r = false;
  const go = (x) => {
    if (r) return;
    if (ts.isAwaitExpression(x) || ts.isYieldExpression(x)) {
      r = true;
      return;
    }
    if (ts.isFunctionLike(x)) return;
    ts.forEachChild(x, go);
  };
  go(n);
  return r;
}
/** effect-free: literals, identifiers, shallow property reads, literals of those */
function isLite(n) {
  while (ts.isParenthesizedExpression(n) || ts.isAsExpression?.(n) || ts.isNonNullExpression?.(n)) n = n.expression;
  switch (n.kind) {
    case K.StringLiteral: case K.NumericLiteral: case K.NoSubstitutionTemplateLiteral: case K.TrueKeyword: case K.FalseKeyword: case K.NullKeyword: case K.Identifier: case K.ThisKeyword:
      return true;
  }
  if (ts.isVoidExpression(n)) return isLite(n.expression);
  if (ts.isPropertyAccessExpression(n) && !n.questionDotToken) return n.expression.kind === K.ThisKeyword || ts.isIdentifier(n.expression);
  if (ts.isObjectLiteralExpression(n)) return n.properties.every((p) => (ts.isPropertyAssignment(p) && !ts.isComputedPropertyName(p.name) && isLite(p.initializer)) || ts.isShorthandPropertyAssignment(p));
  if (ts.isArrayLiteralExpression(n)) return n.elements.every((e) => !ts.isSpreadElement(e) && isLite(e));
  return false;
}
/** rewrite property reads in a lite expression so that they refuse to fork */
function liteThunk(n) {
  return thunk(n);
}

/** module helpers that the TypeScript emitter puts at the top of a file */
const isTsHelper = (n) =>
  ts.isVariableStatement(n) && n.declarationList.declarations.length === 1 && ts.isIdentifier(n.declarationList.declarations[0].name) &&
  ['__createBinding', '__setModuleDefault', '__importStar', '__importDefault', '__exportStar', '__rest', '__awaiter'].includes(n.declarationList.declarations[0].name.text);

const ASSIGN_OPS = new Map([
  [K.PlusEqualsToken, '+'], [K.MinusEqualsToken, '-'], [K.AsteriskEqualsToken, '*'], [K.SlashEqualsToken, '/'], [K.PercentEqualsToken, '%'],
  [K.AsteriskAsteriskEqualsToken, '**'], [K.AmpersandEqualsToken, '&'], [K.BarEqualsToken, '|'], [K.CaretEqualsToken, '^'],
  [K.LessThanLessThanEqualsToken, '<<'], [K.GreaterThanGreaterThanEqualsToken, '>>'], [K.GreaterThanGreaterThanGreaterThanEqualsToken, '>>>'],
]);
const BIN_OPS = new Map([
  [K.PlusToken, '+'], [K.MinusToken, '-'], [K.AsteriskToken, '*'], [K.SlashToken, '/'], [K.PercentToken, '%'], [K.AsteriskAsteriskToken, '**'],
  [K.LessThanToken, '<'], [K.GreaterThanToken, '>'], [K.LessThanEqualsToken, '<='], [K.GreaterThanEqualsToken, '>='],
  [K.EqualsEqualsToken, '=='], [K.ExclamationEqualsToken, '!='], [K.EqualsEqualsEqualsToken, '==='], [K.ExclamationEqualsEqualsToken, '!=='],
  [K.AmpersandToken, '&'], [K.BarToken, '|'], [K.CaretToken, '^'], [K.LessThanLessThanToken, '<<'], [K.GreaterThanGreaterThanToken, '>>'], [K.GreaterThanGreaterThanGreaterThanToken, '>>>'],
]);

// stage 1: `a ?? b` without await in b keeps laziness but not TypeScript's own lowering
function nullishTransformer(context) {
  const visit = (n) => {
    n = ts.visitEachChild(n, visit, context);
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.QuestionQuestionToken && !containsAwait(n.right)) {
      const lite = isLite(n.right);
      return $(lite ? 'nullishLite' : 'nullish', [n.left, thunk(n.right)]);
    }
    return n;
  };
  return (sf) => ts.visitNode(sf, visit);
}

// stage 2
function mainTransformer(file) {
  return (context) => {
    let tmpStack = [];
    let counter = 0;
    const newTmp = () => {
      const n = `_$${counter++}`;
      tmpStack[tmpStack.length - 1].push(n);
      return id(n);
    };
    let inLite = 0;
    const names = [];

    const isStringish = (n) => ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n);

    function cond(e) {
      return $('truthy', [visit(e)]);
    }
    function args(list) {
      return f.createArrayLiteralExpression(
        (list ?? []).map((a) => (ts.isSpreadElement(a) ? f.createSpreadElement($('spreadArgs', [visit(a.expression)])) : visit(a))),
      );
    }
    function fnName(n) {
      const own = n.name && ts.isIdentifier(n.name) ? n.name.text : ts.isConstructorDeclaration(n) ? 'constructor' : n.name && n.name.text;
      return [...names, own].filter(Boolean).join('.');
    }
    /** bind element pattern with defaults -> list of declarations */
    function expandPattern(pattern, init, out) {
      const later = [];
      const el = (e) => {
        if (ts.isOmittedExpression(e)) return e;
        let name = e.name;
        const prop = e.propertyName ? (ts.isComputedPropertyName(e.propertyName) ? f.createComputedPropertyName(visit(e.propertyName.expression)) : e.propertyName) : undefined;
        let propertyName = prop;
        if (e.initializer) {
          const t = id(`_$${counter++}`);
          if (!propertyName && ts.isObjectBindingPattern(pattern)) propertyName = name;
          later.push([name, $('dflt', [t, thunk(visit(e.initializer))])]);
          name = t;
        } else if (!ts.isIdentifier(name)) {
          if (hasDefaults(name)) {
            const t = id(`_$${counter++}`);
            later.push([name, t]);
            name = t;
          } else name = plainPattern(name);
        }
        return f.createBindingElement(e.dotDotDotToken, propertyName, name, undefined);
      };
      const els = pattern.elements.map(el);
      out.push([ts.isObjectBindingPattern(pattern) ? f.createObjectBindingPattern(els) : f.createArrayBindingPattern(els), init]);
      for (const [n, e] of later) {
        if (ts.isIdentifier(n)) out.push([n, e]);
        else expandPattern(n, e, out);
      }
    }
    function plainPattern(p) {
      return p;
    }
    function hasDefaults(p) {
      if (ts.isIdentifier(p)) return false;
      return p.elements.some((e) => !ts.isOmittedExpression(e) && (e.initializer || hasDefaults(e.name) || (e.propertyName && ts.isComputedPropertyName(e.propertyName))));
    }
    function declList(list) {
      const out = [];
      for (const d of list.declarations) {
        const init = d.initializer ? named(d, () => visit(d.initializer)) : undefined;
        if (!ts.isIdentifier(d.name) && init && hasDefaults(d.name)) {
          const pairs = [];
          expandPattern(d.name, init, pairs);
          for (const [n, e] of pairs) out.push(f.createVariableDeclaration(n, undefined, undefined, e));
        } else out.push(f.createVariableDeclaration(d.name, undefined, undefined, init));
      }
      return f.createVariableDeclarationList(out, list.flags);
    }
    function named(d, fn) {
      const nm = d.name && ts.isIdentifier(d.name) ? d.name.text : null;
      const isFn = d.initializer && (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer));
      if (nm && isFn) pendingName = nm;
      const r = fn();
      pendingName = null;
      return r;
    }
    let pendingName = null;
    function withTmps(fn) {
      tmpStack.push([]);
      const r = fn();
      const t = tmpStack.pop();
      return [r, t];
    }
    function tmpDecl(t) {
      return t.length ? [f.createVariableStatement(undefined, f.createVariableDeclarationList(t.map((n) => f.createVariableDeclaration(n)), ts.NodeFlags.Let))] : [];
    }
    /** function-like: rewrites parameters and body */
    function fnParts(n) {
      const nm = pendingName && !n.name ? [...names, pendingName].join('.') : fnName(n);
      pendingName = null;
      const pre = [];
      const anonymous = !n.name && ts.isArrowFunction(n) && !nm.split('.').pop();
      names.push(nm.slice(names.length ? names.join('.').length + 1 : 0) || 'anonymous');
      const [r, tmps] = withTmps(() => {
        const params = n.parameters.map((p) => {
          let name = p.name;
          if (p.initializer) {
            const init = $('dflt', [ts.isIdentifier(name) ? name : null, thunk(visit(p.initializer))].filter(Boolean));
            if (ts.isIdentifier(name)) pre.push(exprStmt(assign(name, init)));
            else {
              const t = id(`_$${counter++}`);
              const out = [];
              const e = $('dflt', [t, thunk(visit(p.initializer))]);
              expandPattern(name, e, out);
              pre.push(f.createVariableStatement(undefined, f.createVariableDeclarationList(out.map(([a, b]) => f.createVariableDeclaration(a, undefined, undefined, b)), ts.NodeFlags.Let)));
              name = t;
            }
          } else if (!ts.isIdentifier(name) && hasDefaults(name)) {
            const t = id(`_$${counter++}`);
            const out = [];
            expandPattern(name, t, out);
            pre.push(f.createVariableStatement(undefined, f.createVariableDeclarationList(out.map(([a, b]) => f.createVariableDeclaration(a, undefined, undefined, b)), ts.NodeFlags.Let)));
            name = t;
          }
          return f.createParameterDeclaration(undefined, p.dotDotDotToken, name);
        });
        let body;
        if (n.body && ts.isBlock(n.body)) body = n.body.statements.map(visit).flat();
        else if (n.body) body = [f.createReturnStatement(visit(n.body))];
        return { params, body };
      });
      const full = names.join('.');
      names.pop();
      void anonymous;
      const mark = exprStmt($('fn', [str(`${file}:${full}`)]));
      const body = r.body ? f.createBlock([mark, ...tmpDecl(tmps), ...pre, ...r.body], true) : undefined;
      return { params: r.params, body };
    }
    const mods = (n) => n.modifiers;
    function loopBody(s) {
      const b = visit(s);
      const stmts = Array.isArray(b) ? b : ts.isBlock(b) ? [...b.statements] : [b];
      return f.createBlock([exprStmt($('loop', [])), ...stmts], true);
    }
    function propName(n) {
      if (ts.isComputedPropertyName(n)) return f.createComputedPropertyName(visit(n.expression));
      return n;
    }

    function visitAssignTarget(l) {
      // patterns on the left of an assignment: keep as they are
      return l;
    }
    function compound(op, left, right) {
      if (ts.isIdentifier(left)) return paren(assign(left, $('bin', [str(op), left, right])));
      if (ts.isPropertyAccessExpression(left)) {
        if (left.expression.kind === K.SuperKeyword) return f.createBinaryExpression(left, K.EqualsToken, $('bin', [str(op), left, right]));
        const t = newTmp();
        const acc = f.createPropertyAccessExpression(t, left.name);
        return paren(f.createCommaListExpression([assign(t, visit(left.expression)), assign(acc, $('bin', [str(op), acc, right]))]));
      }
      if (ts.isElementAccessExpression(left)) {
        const t = newTmp();
        const k = newTmp();
        return paren(f.createCommaListExpression([assign(t, visit(left.expression)), assign(k, visit(left.argumentExpression)), $('setIdx', [t, k, $('bin', [str(op), $('idx', [t, k]), right])])]));
      }
      throw new Error('compound target ' + K[left.kind]);
    }

    function visit(n) {
      if (!n) return n;
      switch (n.kind) {
        case K.ParenthesizedExpression:
          return paren(visit(n.expression));
        case K.BinaryExpression: {
          const op = n.operatorToken.kind;
          if (op === K.EqualsToken) {
            if (ts.isElementAccessExpression(n.left) && n.left.expression.kind !== K.SuperKeyword) {
              return $('setIdx', [visit(n.left.expression), visit(n.left.argumentExpression), visit(n.right)]);
            }
            if (ts.isPropertyAccessExpression(n.left)) {
              const o = n.left.expression;
              return assign(f.createPropertyAccessExpression(o.kind === K.SuperKeyword || o.kind === K.ThisKeyword ? o : visit(o), n.left.name), visit(n.right));
            }
            return assign(visitAssignTarget(n.left), visit(n.right));
          }
          if (ASSIGN_OPS.has(op)) return compound(ASSIGN_OPS.get(op), n.left, visit(n.right));
          if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) {
            const isAnd = op === K.AmpersandAmpersandToken;
            if (containsAwait(n.right)) {
              const t = newTmp();
              const c = $('truthy', [assign(t, visit(n.left))]);
              return paren(isAnd ? f.createConditionalExpression(c, undefined, visit(n.right), undefined, t) : f.createConditionalExpression(c, undefined, t, undefined, visit(n.right)));
            }
            if (isLite(n.right)) return $(isAnd ? 'andLite' : 'orLite', [visit(n.left), thunk(visitLite(n.right))]);
            return $(isAnd ? 'and' : 'or', [visit(n.left), thunk(visit(n.right))]);
          }
          if (op === K.CommaToken) return f.createBinaryExpression(visit(n.left), K.CommaToken, visit(n.right));
          if (op === K.InKeyword) return ts.isPrivateIdentifier(n.left) ? n : $('in', [visit(n.left), visit(n.right)]);
          if (op === K.InstanceOfKeyword) return $('instanceof', [visit(n.left), visit(n.right)]);
          if (BIN_OPS.has(op)) return $('bin', [str(BIN_OPS.get(op)), visit(n.left), visit(n.right)]);
          if (op === K.QuestionQuestionToken) {
            const t = newTmp();
            return paren(f.createConditionalExpression($('truthy', [$('bin', [str('!='), assign(t, visit(n.left)), f.createNull()])]), undefined, t, undefined, visit(n.right)));
          }
          throw new Error('binary operator ' + K[op]);
        }
        case K.PrefixUnaryExpression: {
          const o = n.operand;
          switch (n.operator) {
            case K.ExclamationToken:
              return $('not', [visit(o)]);
            case K.MinusToken:
              return ts.isNumericLiteral(o) ? n : $('neg', [visit(o)]);
            case K.PlusToken:
              return $('plus', [visit(o)]);
            case K.TildeToken:
              return $('bitnot', [visit(o)]);
            case K.PlusPlusToken:
            case K.MinusMinusToken: {
              const d = f.createNumericLiteral(1);
              return incdec(o, n.operator === K.PlusPlusToken ? d : f.createPrefixUnaryExpression(K.MinusToken, d), false);
            }
          }
          break;
        }
        case K.PostfixUnaryExpression: {
          const d = f.createNumericLiteral(1);
          return incdec(n.operand, n.operator === K.PlusPlusToken ? d : f.createPrefixUnaryExpression(K.MinusToken, d), true);
        }
        case K.ConditionalExpression:
          if (isLite(n.whenTrue) && isLite(n.whenFalse))
            return $('condLite', [visit(n.condition), thunk(visitLite(n.whenTrue)), thunk(visitLite(n.whenFalse))]);
          return paren(f.createConditionalExpression(cond(n.condition), undefined, visit(n.whenTrue), undefined, visit(n.whenFalse)));
        case K.TypeOfExpression:
          if (ts.isIdentifier(n.expression))
            return paren(f.createConditionalExpression(f.createBinaryExpression(f.createTypeOfExpression(n.expression), K.EqualsEqualsEqualsToken, str('undefined')), undefined, str('undefined'), undefined, $('typeof', [n.expression])));
          return $('typeof', [visit(n.expression)]);
        case K.DeleteExpression:
          if (ts.isElementAccessExpression(n.expression)) return $('del', [visit(n.expression.expression), visit(n.expression.argumentExpression)]);
          return f.createDeleteExpression(visit(n.expression));
        case K.TemplateExpression:
          return $('tpl', [
            f.createArrayLiteralExpression([str(n.head.text), ...n.templateSpans.map((s) => str(s.literal.text))]),
            f.createArrayLiteralExpression(n.templateSpans.map((s) => visit(s.expression))),
          ]);
        case K.TaggedTemplateExpression:
          return n;
        case K.CallExpression: {
          let c = n.expression;
          if (c.kind === K.SuperKeyword) return f.createCallExpression(c, undefined, args(n.arguments).elements);
          if (c.kind === K.ImportKeyword) return ts.visitEachChild(n, visit, context);
          if (ts.isIdentifier(c) && (c.text === 'require' || c.text === '__awaiter' || c.text === '__exportStar' || c.text === '__createBinding' || c.text === '__setModuleDefault'))
            return f.createCallExpression(c, undefined, args(n.arguments).elements);
          if (ts.isIdentifier(c) && c.text === '__rest') return $('rest', args(n.arguments).elements);
          if (ts.isPropertyAccessExpression(c) && ts.isIdentifier(c.expression) && c.expression.text === '$') {
            // inserted by stage 1
            const m = c.name.text;
            if (m === 'nullish' || m === 'nullishLite') {
              const th = n.arguments[1];
              return $(m, [visit(n.arguments[0]), thunk(m === 'nullishLite' ? visitLite(th.body) : visit(th.body))]);
            }
          }
          while (ts.isParenthesizedExpression(c) && ts.isPropertyAccessExpression(c.expression)) c = c.expression;
          if (ts.isPropertyAccessExpression(c)) {
            if (c.expression.kind === K.SuperKeyword) return f.createCallExpression(c, undefined, args(n.arguments).elements);
            if (ts.isPrivateIdentifier(c.name)) return f.createCallExpression(f.createPropertyAccessExpression(visit(c.expression), c.name), undefined, args(n.arguments).elements);
            return $('mcall', [visit(c.expression), str(c.name.text), args(n.arguments)]);
          }
          if (ts.isElementAccessExpression(c) && c.expression.kind !== K.SuperKeyword) return $('mcall', [visit(c.expression), visit(c.argumentExpression), args(n.arguments)]);
          return $('call', [visit(c), args(n.arguments)]);
        }
        case K.NewExpression:
          return $('new', [visit(n.expression), args(n.arguments)]);
        case K.ElementAccessExpression:
          if (n.expression.kind === K.SuperKeyword) return n;
          return $('idx', [visit(n.expression), visit(n.argumentExpression)]);
        case K.ObjectLiteralExpression: {
          const simple = n.properties.every((p) => ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p) || ts.isMethodDeclaration(p));
          if (simple && n.properties.some((p) => p.name && ts.isComputedPropertyName(p.name) && !isStringish(p.name.expression)) && n.properties.every((p) => !ts.isMethodDeclaration(p))) {
            return $('oc', [
              f.createArrayLiteralExpression(
                n.properties.map((p) => {
                  const k = ts.isComputedPropertyName(p.name) ? visit(p.name.expression) : str(p.name.text);
                  return f.createArrayLiteralExpression([k, ts.isShorthandPropertyAssignment(p) ? p.name : visit(p.initializer)]);
                }),
              ),
            ]);
          }
          const props = n.properties.map((p) => {
            if (ts.isPropertyAssignment(p)) {
              if (ts.isIdentifier(p.name) && (ts.isArrowFunction(p.initializer) || ts.isFunctionExpression(p.initializer))) pendingName = p.name.text;
              const v = visit(p.initializer);
              pendingName = null;
              return f.createPropertyAssignment(propName(p.name), v);
            }
            if (ts.isShorthandPropertyAssignment(p)) return p;
            if (ts.isSpreadAssignment(p)) return f.createSpreadAssignment(visit(p.expression));
            return visit(p);
          });
          return $('o', [f.createObjectLiteralExpression(props, props.length > 1)]);
        }
        case K.ArrayLiteralExpression:
          return f.createArrayLiteralExpression(n.elements.map((e) => (ts.isSpreadElement(e) ? f.createSpreadElement($('spreadArgs', [visit(e.expression)])) : visit(e))));
        case K.IfStatement:
          if (!n.elseStatement) {
            const u = condUpdate(n.thenStatement);
            if (u) return f.createIfStatement($(u.name, [visit(n.expression), ...u.args]), one(visit(n.thenStatement)));
          }
          return f.createIfStatement(cond(n.expression), one(visit(n.thenStatement)), n.elseStatement ? one(visit(n.elseStatement)) : undefined);
        case K.WhileStatement:
          return f.createWhileStatement(cond(n.expression), loopBody(n.statement));
        case K.DoStatement:
          return f.createDoStatement(loopBody(n.statement), cond(n.expression));
        case K.ForStatement:
          return f.createForStatement(
            n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? declList(n.initializer) : visit(n.initializer)) : undefined,
            n.condition ? cond(n.condition) : undefined,
            n.incrementor ? visit(n.incrementor) : undefined,
            loopBody(n.statement),
          );
        case K.ForOfStatement: {
          let init = n.initializer;
          let body = loopBody(n.statement);
          if (ts.isVariableDeclarationList(init)) {
            const d = init.declarations[0];
            if (!ts.isIdentifier(d.name) && hasDefaults(d.name)) {
              const t = id(`_$${counter++}`);
              const out = [];
              expandPattern(d.name, t, out);
              const inner = f.createVariableStatement(undefined, f.createVariableDeclarationList(out.map(([a, b]) => f.createVariableDeclaration(a, undefined, undefined, b)), ts.NodeFlags.Let));
              body = f.createBlock([inner, ...body.statements], true);
              init = f.createVariableDeclarationList([f.createVariableDeclaration(t)], ts.NodeFlags.Const);
            }
          }
          return f.createForOfStatement(n.awaitModifier, init, n.awaitModifier ? visit(n.expression) : $('iter', [visit(n.expression)]), body);
        }
        case K.ForInStatement:
          return f.createForInStatement(n.initializer, $('keysIn', [visit(n.expression)]), loopBody(n.statement));
        case K.SwitchStatement: {
          const cases = [];
          const clauses = n.caseBlock.clauses.map((c) => {
            const st = c.statements.map(visit).flat();
            if (ts.isDefaultClause(c)) return f.createDefaultClause(st);
            cases.push(thunk(visit(c.expression)));
            return f.createCaseClause(f.createNumericLiteral(cases.length - 1), st);
          });
          return f.createSwitchStatement($('sw', [visit(n.expression), f.createArrayLiteralExpression(cases)]), f.createCaseBlock(clauses));
        }
        case K.TryStatement: {
          let cc = n.catchClause;
          if (cc) {
            const body = cc.block.statements.map(visit).flat();
            let v = cc.variableDeclaration;
            const extra = [];
            if (!v || !ts.isIdentifier(v.name)) {
              const t = id(`_$${counter++}`);
              if (v) extra.push(f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(v.name, undefined, undefined, t)], ts.NodeFlags.Let)));
              v = f.createVariableDeclaration(t);
            }
            cc = f.createCatchClause(v, f.createBlock([exprStmt($('caught', [v.name])), ...extra, ...body], true));
          }
          return f.createTryStatement(visit(n.tryBlock), cc, n.finallyBlock ? visit(n.finallyBlock) : undefined);
        }
        case K.VariableStatement:
          return f.createVariableStatement(n.modifiers, declList(n.declarationList));
        case K.ArrowFunction: {
          const { params, body } = fnParts(n);
          return f.createArrowFunction(mods(n), undefined, params, undefined, f.createToken(K.EqualsGreaterThanToken), body);
        }
        case K.FunctionExpression: {
          const { params, body } = fnParts(n);
          return f.createFunctionExpression(mods(n), n.asteriskToken, n.name, undefined, params, undefined, body);
        }
        case K.FunctionDeclaration: {
          const { params, body } = fnParts(n);
          return f.createFunctionDeclaration(mods(n), n.asteriskToken, n.name, undefined, params, undefined, body);
        }
        case K.MethodDeclaration: {
          const { params, body } = fnParts(n);
          return f.createMethodDeclaration(mods(n), n.asteriskToken, propName(n.name), undefined, undefined, params, undefined, body);
        }
        case K.Constructor: {
          const { params, body } = fnParts(n);
          return f.createConstructorDeclaration(mods(n), params, body);
        }
        case K.GetAccessor: {
          const { params, body } = fnParts(n);
          return f.createGetAccessorDeclaration(mods(n), propName(n.name), params, undefined, body);
        }
        case K.SetAccessor: {
          const { params, body } = fnParts(n);
          return f.createSetAccessorDeclaration(mods(n), propName(n.name), params, body);
        }
        case K.ClassDeclaration:
        case K.ClassExpression: {
          names.push(n.name ? n.name.text : 'class');
          const [r, tmps] = withTmps(() => ts.visitEachChild(n, visit, context));
          names.pop();
          if (tmps.length) tmpStack[tmpStack.length - 1].push(...tmps);
          return r;
        }
        case K.PropertyAccessExpression:
          return f.createPropertyAccessExpression(n.expression.kind === K.SuperKeyword ? n.expression : visit(n.expression), n.name);
        case K.MetaProperty:
          return n;
      }
      return ts.visitEachChild(n, visit, context);
    }
    /** `obj.k = value` or `delete obj.k` as the only statement of an if: a guarded update of the field, so that it need not fork */
    function condUpdate(s) {
      if (ts.isBlock(s)) {
        if (s.statements.length !== 1) return null;
        s = s.statements[0];
      }
      if (!ts.isExpressionStatement(s)) return null;
      const e = s.expression;
      const target = (l) => {
        if (!ts.isIdentifier(l.expression)) return null;
        if (ts.isPropertyAccessExpression(l) && !l.questionDotToken) return [l.expression, str(l.name.text)];
        if (ts.isElementAccessExpression(l) && !l.questionDotToken && (ts.isIdentifier(l.argumentExpression) || ts.isStringLiteral(l.argumentExpression))) return [l.expression, l.argumentExpression];
        return null;
      };
      const simple = (l) => ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l);
      if (ts.isDeleteExpression(e) && simple(e.expression)) {
        const t = target(e.expression);
        return t && { name: 'ifDel', args: t };
      }
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken && simple(e.left)) {
        const t = target(e.left);
        if (!t) return null;
        if (isLite(e.right)) return { name: 'ifSet', args: [...t, thunk(visitLite(e.right))] };
        if (ts.isElementAccessExpression(e.right)) {
          const r = target(e.right);
          if (r) return { name: 'ifSet', args: [...t, thunk($('pgi', r))] };
        }
      }
      return null;
    }
    function visitLite(n) {
      // property reads on identifiers refuse to fork
      while (ts.isParenthesizedExpression(n)) n = n.expression;
      if (ts.isPropertyAccessExpression(n)) return n.expression.kind === K.ThisKeyword ? n : $('pg', [n.expression, str(n.name.text)]);
      if (ts.isObjectLiteralExpression(n)) return $('o', [f.createObjectLiteralExpression(n.properties.map((p) => (ts.isShorthandPropertyAssignment(p) ? p : f.createPropertyAssignment(p.name, visitLite(p.initializer)))))]);
      if (ts.isArrayLiteralExpression(n)) return f.createArrayLiteralExpression(n.elements.map(visitLite));
      return n;
    }
    function one(s) {
      return Array.isArray(s) ? f.createBlock(s, true) : s;
    }
    function incdec(o, d, post) {
      if (ts.isParenthesizedExpression(o)) o = o.expression;
      if (ts.isIdentifier(o)) {
        if (!post) return paren(assign(o, $('inc', [o, d])));
        const t = newTmp();
        return paren(f.createCommaListExpression([assign(t, $('num', [o])), assign(o, $('inc', [t, d])), t]));
      }
      const t = newTmp();
      const v = newTmp();
      if (ts.isPropertyAccessExpression(o)) {
        const acc = f.createPropertyAccessExpression(t, o.name);
        return paren(f.createCommaListExpression([assign(t, visit(o.expression)), assign(v, $('num', [acc])), assign(acc, $('inc', [v, d])), post ? v : acc]));
      }
      const k = newTmp();
      return paren(f.createCommaListExpression([assign(t, visit(o.expression)), assign(k, visit(o.argumentExpression)), assign(v, $('num', [$('idx', [t, k])])), $('setIdx', [t, k, $('inc', [v, d])]), post ? v : $('idx', [t, k])]));
    }
    void inLite;
    void liteThunk;

    return (sf) => {
      const [stmts, tmps] = withTmps(() => sf.statements.map((n) => (isTsHelper(n) ? n : visit(n))).flat());
      // keep directives first
      let i = 0;
      while (i < stmts.length && ts.isExpressionStatement(stmts[i]) && ts.isStringLiteral(stmts[i].expression)) i++;
      return f.updateSourceFile(sf, [...stmts.slice(0, i), ...tmpDecl(tmps), ...stmts.slice(i)]);
    };
  };
}

const base = {
  module: ts.ModuleKind.CommonJS,
  esModuleInterop: true,
  useDefineForClassFields: false,
  removeComments: true,
  isolatedModules: true,
};
export function toInstrumented(source, file, display) {
  const s1 = ts.transpileModule(source, {
    fileName: file,
    reportDiagnostics: true,
    compilerOptions: { ...base, target: ts.ScriptTarget.ES2017 },
    transformers: { before: [nullishTransformer] },
  });
  if (s1.diagnostics?.length) throw new Error(`${file}: ${ts.flattenDiagnosticMessageText(s1.diagnostics[0].messageText, '\n')}`);
  const s2 = ts.transpileModule(s1.outputText, {
    fileName: file.replace(/\.(m?ts|mjs)$/, '.js'),
    compilerOptions: { target: ts.ScriptTarget.ESNext, module: ts.ModuleKind.CommonJS, allowJs: true, removeComments: true },
    transformers: { before: [mainTransformer(display)] },
  });
  return s2.outputText;
}
export function toNative(source, file) {
  const s1 = ts.transpileModule(source, { fileName: file, reportDiagnostics: true, compilerOptions: { ...base, target: ts.ScriptTarget.ES2022 } });
  if (s1.diagnostics?.length) throw new Error(`${file}: ${ts.flattenDiagnosticMessageText(s1.diagnostics[0].messageText, '\n')}`);
  return s1.outputText;
}
if (process.argv[1] === new URL(import.meta.url).pathname) {
  const p = process.argv[2];
  process.stdout.write(toInstrumented(fs.readFileSync(p, 'utf8'), p, p));
}
/** collect the member names, environment variable names and short literals that a source file mentions */
export function namesOf(source, file, members, env, literals, asked = new Set()) {
  const sf = ts.createSourceFile(file, source, ts.ScriptTarget.ESNext, true);
  const add = (n) => {
    if (/^[A-Z][A-Z0-9_]{2,}$/.test(n)) env.add(n);
    else if (/^[A-Za-z_][\w-]{0,29}$/.test(n)) members.add(n);
  };
  const visit = (n) => {
    if (ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
    if (ts.isPropertyAccessExpression(n) && !(ts.isCallExpression(n.parent) && n.parent.expression === n)) add(n.name.text);
    // names looked up in a collection: those of headers among them
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['get', 'has', 'set', 'append', 'delete'].includes(n.expression.name.text) && n.arguments.length > 0 && ts.isStringLiteralLike(n.arguments[0])) asked.add(n.arguments[0].text);
    if (ts.isBindingElement(n)) add((n.propertyName ?? n.name).getText(sf));
    if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) {
      add(n.text);
      if (n.text.length > 0 && n.text.length <= 10 && !/^\w+$/.test(n.text)) literals.add(n.text);
    }
    if (ts.isRegularExpressionLiteral(n)) {
      const m = n.text.replace(/^\/|\/[a-z]*$/g, '').replace(/[\^$\\]/g, '');
      if (m.length <= 10) literals.add(m);
    }
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
