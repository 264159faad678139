"""What each property's check explores: specification modules, scopes, generators."""
import json, os, random, shutil, tempfile

def first_difference(exp, obs, path=''):
    if type(exp) != type(obs):
        return '%s: expected %s, got %s' % (path or '/', json.dumps(exp)[:200], json.dumps(obs)[:300])
    if isinstance(exp, dict):
        for k in exp:
            if k not in obs:
                return '%s/%s: missing, got %s' % (path, k, json.dumps(obs)[:300])
            if exp[k] != obs[k]:
                return first_difference(exp[k], obs[k], path + '/' + k)
        return '%s: unexpected %s' % (path, [k for k in obs if k not in exp])
    if isinstance(exp, list):
        for i in range(min(len(exp), len(obs))):
            if exp[i] != obs[i]:
                return first_difference(exp[i], obs[i], path + '/%d' % i)
        return '%s: expected %d items, got %d: %s' % (path, len(exp), len(obs), json.dumps(obs[len(exp):] or exp[len(obs):])[:200])
    return '%s: expected %s, got %s' % (path, json.dumps(exp)[:200], json.dumps(obs)[:200])

CHECKS = {}
NOTES = {}
TECH = 'TLA+ specification checked with TLC; every TLC behaviour replayed on the code and recorded traces validated by TLC'
def note(text, *props):
    for p in props:
        NOTES[p] = (TECH, text)

def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco

# ------------------------------------------------------------ encoding machine
ENC_STEPS = {'E01': {'trunc', 'trunc2'}, 'E02': {'pad', 'padall'}, 'E03': {'merge', 'mergeall'},
             'E04': {'proc'}, 'E05': {'look'}}

def enc_attr(case, exp, obs, prop):
    """Only failures of this property's own operations count."""
    if not isinstance(obs, dict) or 'obs' not in obs:
        return True            # the process ended or hung: any check of the area reports it
    common = {'copy', 'clone', 'fromtoks', 'types', 'seqids', 'setword', 'take', 'give'}
    if 'step' in exp:
        return exp['what'] in ENC_STEPS[prop] or exp['what'] in common
    for i, e in enumerate(exp['obs']):
        if i >= len(obs['obs']) or obs['obs'][i] != e:
            a = case['steps'][i]['a']
            return a in ENC_STEPS[prop] or a in common or (prop == 'E01' and a == 'padall')
    return True

note('Encoding machine (spec/Encoding.tla): exhaustive in a small scope of encodings and steps, random histories of larger encodings validated by TLC.', 'E01', 'E02', 'E03', 'E04', 'E05')
@check('E01', 'E02', 'E03', 'E04', 'E05')
def encoding(run):
    run.replay_mc('EncodingMC', attribute=enc_attr)
    n = 20000 if run.big else 1200
    run.validate('EncodingTrace', run.gen('enc', n), attribute=enc_attr, chunk=2500)
    if run.prop == 'E04':                      # templates written as text
        run.replay_mc('TemplateMC')
        run.validate('TemplateTrace', run.gen('template', 20000 if run.big else 1500), chunk=4000)
    if run.prop in ('E01', 'E02', 'E04'):      # as a tokenizer does it
        run.validate('PipelineTrace', run.gen(run.prop + 'pipe', 6000 if run.big else 600, far=(5, 25)), chunk=2500)

# --------------------------------------------------------- normalized strings
def norm_attr(case, exp, obs, prop):
    return True

note('Normalized string machine (spec/Normalized.tla): every history of operations in a small scope, random longer histories over a table of 800 characters validated by TLC.', 'N01', 'N02', 'S01')
@check('N01', 'N02', 'S01')
def normalized(run):
    run.replay_mc('NormalizedMC')
    run.validate('NormalizedTrace', run.gen(run.prop, 20000 if run.big else 2000), chunk=4000)

# ------------------------------------------------------ pre-tokenized strings
note('Pre-tokenized string machine (spec/PreTok.tla, over the normalized string machine): every splitter on every text of a small scope, splits carrying tokens, encodings; random longer histories validated by TLC.', 'S02', 'S03')
@check('S02', 'S03')
def pretok(run):
    run.replay_mc('PreTokMC')
    run.validate('PreTokTrace', run.gen(run.prop, 20000 if run.big else 2000), chunk=4000)

# ----------------------------------------------------------- added vocabulary
note('Added vocabulary machine (spec/AddedVocab.tla, over the pre-tokenized string machine): every history of additions and every text in a small scope, random longer ones validated by TLC.', 'V01', 'V02')
@check('V01', 'V02')
def vocab(run):
    run.replay_mc('AddedVocabMC')
    run.validate('AddedVocabTrace', run.gen(run.prop, 20000 if run.big else 2000), chunk=4000)

# ------------------------------------------------------------------------ BPE
note('BPE machine (spec/Bpe.tla): every list of up to 3 merges with every short word, random models and words validated by TLC.', 'B01')
@check('B01')
def bpe(run):
    run.replay_mc('BpeMC')
    run.validate('BpeTrace', run.gen('B01', 20000 if run.big else 2500), chunk=5000)

note('BPE cache machine (spec/Bpe.tla): every history of the cache and of a model with a cache in a small scope; recorded concurrent histories, under the race detector, for which TLC searches a sequential order.', 'B02')
@check('B02')
def bpe_cache(run):
    run.replay_mc('BpeMC')
    run.validate('BpeTrace', run.gen('B02', 10000 if run.big else 1500), chunk=5000)
    run.concurrent('BpeConcTrace', run.gen('B02conc', 4000 if run.big else 400), chunk=1000)

note('BPE training machine (spec/BpeTrain.tla): every small set of words under 13 sets of options, one transition per merge; random larger trainings (some with more than 10000 words), each three times, validated by TLC.', 'B03')
@check('B03')
def bpe_train(run):
    run.replay_mc('BpeTrainMC')
    run.validate('BpeTrainTrace', run.gen('B03', 20000 if run.big else 1500), chunk=5000)

note('Training-from-files machine (spec/TrainCount.tla): every set of small files and every order of the workers that read them, with pieces of 1 to 100 bytes; random larger files, under the race detector, validated by TLC.', 'B04')
@check('B04')
def train_count(run):
    run.replay_mc('TrainCountMC')
    run.validate('TrainCountTrace', run.gen('B04', 6000 if run.big else 800), chunk=4000)
    run.validate('TrainCountTrace', run.gen('B04', 3000 if run.big else 300, 1), chunk=4000, race=True, name='TrainCountTrace:race')
    if run.big:
        run.validate('TrainCountTrace', run.gen('B04big', 2), limit=600, name='TrainCountTrace:big')

note('WordPiece and WordLevel machine (spec/WordModels.tla): every small vocabulary with every short word, look-ups, random larger ones validated by TLC.', 'M01', 'M02')
@check('M01', 'M02')
def words(run):
    run.replay_mc('WordModelsMC')
    run.validate('WordModelsTrace', run.gen(run.prop, 30000 if run.big else 4000), chunk=10000)

note('Unigram machine (spec/Unigram.tla): every cutting of every short text with small scored vocabularies, random larger ones validated by TLC, which accepts any best-scoring cutting.', 'M03')
@check('M03')
def uni(run):
    run.replay_mc('UnigramMC')
    run.validate('UnigramTrace', run.gen('M03', 20000 if run.big else 1500), chunk=5000)

note('Decoder machine (spec/Decoders.tla): every decoder with all short lists of telling tokens, and sequences of decoders, one step per member; random decoders, chains and tokens validated by TLC.', 'D01')
@check('D01')
def decode(run):
    run.replay_mc('DecodersMC')
    run.validate('DecodersTrace', run.gen('D01', 40000 if run.big else 4000), chunk=10000)

note('Model file machine (spec/ModelFiles.tla): every short history of saves, loads, removed and unwritable files for the three models, every small ranking of merges, every wrong pair of files; random models and histories validated by TLC.', 'M04')
@check('M04')
def files(run):
    run.replay_mc('ModelFilesMC')
    run.validate('ModelFilesTrace', run.gen('M04', 20000 if run.big else 2500), chunk=5000)

PIPE = 'Whole-tokenizer machine (spec/Pipeline.tla, over the machines of the added vocabulary, the splitters, the models, encodings and decoders): '
note(PIPE + 'every combination of small parts with short texts; random tokenizers and inputs validated by TLC.', 'T01', 'T02')
note(PIPE + 'every short history of calls and changes; random longer histories, with everything handed out overwritten in between, validated by TLC.', 'T04')
@check('T01', 'T02', 'T04')
def pipeline(run):
    run.replay_mc('PipelineMC')
    run.validate('PipelineTrace', run.gen(run.prop, 20000 if run.big else 2000), chunk=2500)
    if run.prop == 'T04':                       # several calls at the same time
        run.replay_mc('WorkersMC')
        run.validate('PipelineTrace', run.gen('T04conc', 4000 if run.big else 400), chunk=2500, race=True, name='PipelineTrace:race')

note('Worker machine (spec/Workers.tla, over the whole-tokenizer machine): every schedule of the workers of small batches, each forced on the code; random batches under the race detector, half of them in a given order, validated by TLC.', 'T03')
@check('T03')
def workers(run):
    run.replay_mc('WorkersMC')
    run.validate('PipelineTrace', run.gen('T03', 10000 if run.big else 800), chunk=2500, race=True)

note('Configuration machine (spec/Config.tla, over the whole-tokenizer machine): every kind of part, option, default and wrong value; random configurations, a quarter of them spoilt, and what the loaded tokenizers answer, validated by TLC.', 'T05')
@check('T05')
def config(run):
    run.replay_mc('ConfigMC')
    run.validate('ConfigTrace', run.gen('T05', 20000 if run.big else 2000), chunk=2500)

note('File cache machine (spec/FileCache.tla, spec/FileCacheConc.tla): lookups under every fault of network, disk and process, and changes of the sources, in every order; calls at the same time, block by block. Replayed against a local server by a process that is killed where the history says so.', 'F01')
@check('F01')
def filecache(run):
    # the calls are made by nobody, in a directory of theirs
    base = tempfile.mkdtemp(prefix='verif-f01-')
    os.chmod(base, 0o777)
    run.env['F01_DIR'] = base
    try:
        run.replay_mc('FileCacheMC', limit=60)
        recs, dist, gen = run.tlc('FileCacheConc', {})
        cases = [r for k, r in recs if k == 'CASE']
        if not run.big:
            cases = random.Random(run.seed).sample(cases, 3000)
        run.detail['FileCacheConc'] = dict(states=dist, transitions=gen)
        run.validate('FileCacheTrace', cases, limit=60, name='FileCacheConc: schedules')
        run.validate('FileCacheTrace', run.gen('F01', 8000 if run.big else 1200), chunk=4000, limit=60)
    finally:
        shutil.rmtree(base, ignore_errors=True)

note('Machine of the ready-made tokenizers (spec/Presets.tla, over the whole-tokenizer machine): every one of them with every option, files and texts of a small scope, two of them in one program; random files, texts and histories validated by TLC.', 'T06')
@check('T06')
def presets(run):
    run.replay_mc('PresetsMC')
    run.validate('PresetsTrace', run.gen('T06', 12000 if run.big else 1000), chunk=2500)
