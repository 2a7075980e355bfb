// The worker of run.mjs: node work.mjs <scratch folder> <property> [--replay <file>]
import { installFetch } from './lib/net.mjs';
import { findings } from './lib/findings.mjs';
import { progress } from './lib/progress.mjs';

const exit = process.exit.bind(process);
process.env.NODE_ENV = 'production';
for (const k of ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT']) delete process.env[k];
installFetch();
process.on('unhandledRejection', () => {});
process.removeAllListeners('warning');
process.on('warning', () => {});

const [scratch, id, flag, file] = process.argv.slice(2);
const { atCase, idle, done } = progress(scratch);
const { loadLib } = await import('./lib/build.mjs');
const { replay, runProperty } = await import('./lib/runner.mjs');
const { default: prop } = await import(`./props/${id}.mjs`);
let code = 2;
try {
  const ctx = { lib: await loadLib('real'), atCase, idle, finding: findings(id) };
  code = flag === '--replay' ? await replay(prop, file, ctx) : (await runProperty(prop, ctx)) ? 1 : 0;
} catch (e) {
  console.error(e);
}
done(code);
exit(code);
