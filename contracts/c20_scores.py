"""Class scores and votes."""
from contracts._common import *

HELP = 'nimble.core.interfaces._interface_helpers:'

contract('count_wins', 'C20', HELP + 'countWins',
         dict(predictions=List(Opq())), returns=Dict(Opq(), Int(1)),
         ensures=[
             ('every prediction has a count', 'all(x in result for x in '
              'predictions)'),
             ('only predictions have one', 'all(x in predictions for x in '
              'result)'),
             ('the number of contests won', 'all(result[x] == countof('
              'predictions, x, len(predictions)) for x in result)')],
         pool=[PoolItem('all(predictions[j] in D for j in range(k))',
                        D='dict!'),
               PoolItem('all(any(predictions[j] == x for j in range(k)) for '
                        'x in D)', D='dict!'),
               PoolItem('all(D[x] == countof(predictions, x, k) for x in '
                        'D)', D='dict!'),
               PoolItem('all(x in D or countof(predictions, x, k) == 0 for '
                        'x in predictions)', D='dict!')])

contract('winning_index', 'C20', HELP + 'extractWinningPredictionIndex',
         dict(predictionScores=List(Real())),
         ensures=[
             ('none without scores', '(result is None) == '
              '(len(predictionScores) == 0)'),
             ('no score exceeds the winner', 'implies(result is not None, '
              '0 <= result and result < len(predictionScores) and all('
              'predictionScores[j] <= predictionScores[result] for j in '
              'range(len(predictionScores))))'),
             ('the first of them', 'implies(result is not None, all('
              'predictionScores[j] < predictionScores[result] for j in '
              'range(result)))')],
         pool=[PoolItem('0 <= i and i < k and m == predictionScores[i] and '
                        'all(predictionScores[j] <= m for j in range(k)) '
                        'and all(predictionScores[j] < m for j in range(i))'
                        ' or k == 0 and i == -1 and m == -inf', i='int!', m='val!')])

contract('confidence_scores', 'C20', HELP + 'extractConfidenceScores',
         dict(predictionScores=List(Real()), featureNamesItoN=List(Str())),
         gen=lambda rng: (lambda n: dict(
             predictionScores=[rng.choice([0.5, 1.0, -2.0])
                               for _ in range(n)],
             featureNamesItoN=rng.sample('abcdef', n)))(rng.randint(0, 5)),
         requires=['len(predictionScores) == len(featureNamesItoN)',
                   'all(implies(i != j, featureNamesItoN[i] != '
                   'featureNamesItoN[j]) for i in range(len('
                   'featureNamesItoN)) for j in range(len('
                   'featureNamesItoN)))'],
         ensures=[
             ('none without scores', '(result is None) == '
              '(len(predictionScores) == 0)'),
             ('every name has its own score', 'implies(result is not None, '
              'all(featureNamesItoN[i] in result and result['
              'featureNamesItoN[i]] == predictionScores[i] for i in '
              'range(len(predictionScores))))'),
             ('and there is no other', 'implies(result is not None, all('
              'x in featureNamesItoN for x in result))')],
         pool=[PoolItem('all(featureNamesItoN[i] in D and D['
                        'featureNamesItoN[i]] == predictionScores[i] for i '
                        'in range(k))', D='dict!'),
               PoolItem('all(x in featureNamesItoN for x in D)', D='dict!'),
               ])

contract('winning_name', 'C20', HELP + 'extractWinningPredictionIndexAndScore',
         dict(predictionScores=List(Real()), featureNamesItoN=List(Str())),
         gen=lambda rng: (lambda n: dict(
             predictionScores=[rng.choice([0.5, 1.0, -2.0])
                               for _ in range(n)],
             featureNamesItoN=rng.sample('abcdef', n)))(rng.randint(0, 5)),
         requires=['len(predictionScores) == len(featureNamesItoN)',
                   'all(implies(i != j, featureNamesItoN[i] != '
                   'featureNamesItoN[j]) for i in range(len('
                   'featureNamesItoN)) for j in range(len('
                   'featureNamesItoN)))'],
         ensures=[
             ('none without scores', '(result is None) == '
              '(len(predictionScores) == 0)'),
             ('the score of the name', 'implies(result is not None, any('
              'featureNamesItoN[i] == result[0] and predictionScores[i] == '
              'result[1] for i in range(len(predictionScores))))'),
             ('no score exceeds the winner', 'implies(result is not None, '
              'all(predictionScores[j] <= result[1] for j in '
              'range(len(predictionScores))))')],
         pool=[PoolItem('all(featureNamesItoN[i] in D and D['
                        'featureNamesItoN[i]] == predictionScores[i] for i '
                        'in range(k))', D='dict!'),
               PoolItem('all(x in featureNamesItoN for x in D)', D='dict!'),
               PoolItem('k == 0 and m == -inf and b is None or k > 0 and '
                        'b in D and D[b] == m and all(D[item(j)] <= m for '
                        'j in range(k))', m='val!', b='val!', D='dict'),
               ])

contract('all_pairs', 'C20', HELP + 'generateAllPairs',
         dict(items=List(Opq())),
         ensures=[
             ('none without items', '(result is None) == (len(items) == '
              '0)'),
             ('every unordered pair once', 'implies(result is not None, '
              'len(result) * 2 == len(items) * (len(items) - 1) and all('
              'all(result[i * len(items) - (i * (i + 1)) // 2 + j - i - 1]'
              '[0] == items[i] and result[i * len(items) - (i * (i + 1)) '
              '// 2 + j - i - 1][1] == items[j] for j in range(i + 1, '
              'len(items))) for i in range(len(items))))')],
         pool=[PoolItem('len(L) * 2 == k * (2 * len(items) - k - 1)',
                        L='list!'),
               PoolItem('all(all(L[i * len(items) - (i * (i + 1)) // 2 + j '
                        '- i - 1][0] == items[i] and L[i * len(items) - (i '
                        '* (i + 1)) // 2 + j - i - 1][1] == items[j] for j '
                        'in range(i + 1, len(items))) for i in range(k))',
                        L='list!'),
               PoolItem('len(L) == f * len(items) - (f * (f + 1)) // 2 + '
                        'k', L='list!', f='int')])


def gen_ovo(rng):
    n = rng.randint(2, 7)
    return dict(oneVOneData=[rng.choice([-2.5, -1.0, 0.0, 0.5, 3.0])
                             for _ in range(n * (n - 1) // 2)], numLabels=n)


contract('label_scores', 'C20',
         HELP + 'calculateSingleLabelScoresFromOneVsOneScores',
         dict(oneVOneData=List(Real()), numLabels=Int(2)), prove=False,
         gen=gen_ovo,
         requires=['len(oneVOneData) * 2 == numLabels * (numLabels - 1)'],
         ensures=[('a score for every label', 'len(result) == numLabels'),
                  ('the share of contests won', 'all(close(result[i] * '
                   '(numLabels - 1), sum([1 for j in range(numLabels) if '
                   'i < j and oneVOneData[i * numLabels - i * (i + 1) // 2 '
                   '+ j - i - 1] > 0 or j < i and oneVOneData[j * numLabels '
                   '- j * (j + 1) // 2 + i - j - 1] < 0])) for i in '
                   'range(numLabels))')])

contract('winning_label', 'C20', HELP + 'extractWinningPredictionLabel',
         dict(predictions=List(Opq())), uses=['count_wins'],
         requires=['len(predictions) > 0'],
         ensures=[('a label with votes', 'result in predictions'),
                  ('no label has more votes', 'all(countof(predictions, x, '
                   'len(predictions)) <= countof(predictions, result, '
                   'len(predictions)) for x in predictions)')],
         pool=[PoolItem('len(L) == k', L='list!'),
               PoolItem('all(L[j] == D[item(j)] for j in range(k))',
                        L='list!', D='dict')])
